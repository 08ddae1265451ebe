From 5edc65179ddbcc7faf18b1be6105296ca53cc77c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:43 +0000
Subject: [PATCH 01/65] fix: keep the file position when seeking before the
 start of stenciled and lambda files fails

---
 core/ratarmountcore/StenciledFile.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/core/ratarmountcore/StenciledFile.py b/core/ratarmountcore/StenciledFile.py
index 7bce4b0..ccf3c71 100644
--- a/core/ratarmountcore/StenciledFile.py
+++ b/core/ratarmountcore/StenciledFile.py
@@ -157,15 +157,18 @@ class RawStenciledFile(FixedRawIOBase):
 
     @overrides(io.RawIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
+        newOffset = self.offset
         if whence == io.SEEK_CUR:
-            self.offset += offset
+            newOffset += offset
         elif whence == io.SEEK_END:
-            self.offset = self.cumsizes[-1] + offset
+            newOffset = self.cumsizes[-1] + offset
         elif whence == io.SEEK_SET:
-            self.offset = offset
+            newOffset = offset
 
-        if self.offset < 0:
+        # Check before assigning so that a failed seek does not leave an invalid file position behind.
+        if newOffset < 0:
             raise ValueError("Trying to seek before the start of the file!")
+        self.offset = newOffset
         if self.offset >= self.cumsizes[-1]:
             return self.offset
 
@@ -392,15 +395,18 @@ class LambdaReaderFile(io.RawIOBase):
 
     @overrides(io.RawIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
+        newOffset = self.offset
         if whence == io.SEEK_CUR:
-            self.offset += offset
+            newOffset += offset
         elif whence == io.SEEK_END:
-            self.offset = self.size + offset
+            newOffset = self.size + offset
         elif whence == io.SEEK_SET:
-            self.offset = offset
+            newOffset = offset
 
-        if self.offset < 0:
+        # Check before assigning so that a failed seek does not leave an invalid file position behind.
+        if newOffset < 0:
             raise ValueError("Trying to seek before the start of the file!")
+        self.offset = newOffset
         if self.offset >= self.size:
             return self.offset
 
-- 
2.43.0


From 1c06e138c1cb5f003d80d3e1dab3311458b66625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:50 +0000
Subject: [PATCH 02/65] fix: return the rest of the file for unsized reads of
 block-parallel readers

---
 core/ratarmountcore/BlockParallelReaders.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/BlockParallelReaders.py b/core/ratarmountcore/BlockParallelReaders.py
index b22e206..a663d74 100644
--- a/core/ratarmountcore/BlockParallelReaders.py
+++ b/core/ratarmountcore/BlockParallelReaders.py
@@ -133,16 +133,18 @@ class BlockParallelReader(io.BufferedIOBase):
 
     @overrides(io.BufferedIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
+        newOffset = self._offset
         if whence == io.SEEK_CUR:
-            self._offset += offset
+            newOffset += offset
         elif whence == io.SEEK_END:
-            self._offset = self.blockBoundaries[-1] + offset
+            newOffset = self.blockBoundaries[-1] + offset
         elif whence == io.SEEK_SET:
-            self._offset = offset
+            newOffset = offset
 
-        if self._offset < 0:
+        if newOffset < 0:
             raise ValueError("Trying to seek before the start of the file!")
 
+        self._offset = newOffset
         return self._offset
 
     @overrides(io.BufferedIOBase)
@@ -150,6 +152,9 @@ class BlockParallelReader(io.BufferedIOBase):
         return self._offset
 
     def _read(self, size: int, decodeBlock) -> bytes:
+        if size is None or size < 0:
+            size = max(0, self.blockBoundaries[-1] - self._offset)
+
         blocks = []
         blockNumber = self._find_block(self.blockBoundaries, self._offset)
         if blockNumber is None:
-- 
2.43.0


From b1ada822691ed4da02b8ceaaa443af834856cadc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:47 +0000
Subject: [PATCH 03/65] fix: read empty SQLite blobs as empty files

---
 core/ratarmountcore/SQLiteBlobFile.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteBlobFile.py b/core/ratarmountcore/SQLiteBlobFile.py
index 301fb2b..9378180 100644
--- a/core/ratarmountcore/SQLiteBlobFile.py
+++ b/core/ratarmountcore/SQLiteBlobFile.py
@@ -28,7 +28,9 @@ class SQLiteBlobFile(LambdaReaderFile):
     @staticmethod
     def read_blob_part(connection: sqlite3.Connection, expression: str, offset: int, size: int):
         # Note that SQLite offsets begin counting at 1 unlike any other programming language except maybe for Fortran
-        return connection.execute(expression.format("substr(", ",?,?)"), (offset + 1, size)).fetchone()[0]
+        result = connection.execute(expression.format("substr(", ",?,?)"), (offset + 1, size)).fetchone()[0]
+        # SQLite returns NULL for the substring of an empty blob.
+        return b"" if result is None else result
 
 
 class SQLiteBlobsFile(JoinedFile):
-- 
2.43.0


From 3546b6d008901eb380b5d99af73bc9d978a2c3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:14 +0000
Subject: [PATCH 04/65] fix: list the metadata of the union mount source with
 the highest precedence

lookup returns the file of the rightmost mount source but list and list_mode
returned the metadata of the leftmost one for the same file.
---
 core/ratarmountcore/mountsource/compositing/union.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/union.py b/core/ratarmountcore/mountsource/compositing/union.py
index 73f56ed..c0f95af 100644
--- a/core/ratarmountcore/mountsource/compositing/union.py
+++ b/core/ratarmountcore/mountsource/compositing/union.py
@@ -152,7 +152,8 @@ class UnionMountSource(MountSource):
     def _list(self, path: str, onlyMode: bool):
         files: Optional[Union[set[str], dict[str, FileInfo], dict[str, int]]] = None
 
-        for mountSource in reversed(self.mountSources):
+        # The rightmost mount source has the highest precedence, i.e., it must be the last one to update the metadata.
+        for mountSource in self.mountSources:
             result = mountSource.list_mode(path) if onlyMode else mountSource.list(path)
 
             if files is None:
-- 
2.43.0


From 4e39373c6b81e552b5f338fadfdd638705b98e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:14 +0000
Subject: [PATCH 05/65] fix: consider files in union lookups even if another
 mount source has a folder at that path

The folder cache only contains the mount sources for which the path is a folder.
A file at the same path in a mount source with higher precedence was ignored
and the version numbers did not fit to the number of versions.
---
 core/ratarmountcore/mountsource/compositing/union.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/union.py b/core/ratarmountcore/mountsource/compositing/union.py
index c0f95af..406c515 100644
--- a/core/ratarmountcore/mountsource/compositing/union.py
+++ b/core/ratarmountcore/mountsource/compositing/union.py
@@ -106,11 +106,9 @@ class UnionMountSource(MountSource):
         if not path.strip('/'):
             return self.rootFileInfo.clone()
 
-        if path in self.folderCache:
-            # This case might be triggered when path is a folder
-            cachedMountSources = self.folderCache[path]
-        elif self.folderCache and self.folderCacheDepth > 0 and path.startswith('/'):
-            # This should be the most common case, i.e., for regular files. Look up the parent folder in this case.
+        if self.folderCache and self.folderCacheDepth > 0 and path.startswith('/'):
+            # Look up the parent folder even if the path itself is a cached folder because another mount source
+            # might contain a file at that path and that one must also be considered for the precedence and versions.
             parentFolder = '/'.join(path.split('/', self.folderCacheDepth + 1)[:-1])
             if not parentFolder:
                 parentFolder = '/'
-- 
2.43.0


From 661fc6eca7d8c0336d71ef3136c411a39a0cf750 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:17 +0000
Subject: [PATCH 06/65] fix: make files in nested subvolumes accessible

Opening, reading, and querying extended attributes of files for subvolumes
mounted at paths with more than one component failed with a KeyError, and
closing failed with an AttributeError. join_threads was never forwarded.
---
 .../mountsource/compositing/subvolumes.py     | 31 ++++++++++++++-----
 1 file changed, 23 insertions(+), 8 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/subvolumes.py b/core/ratarmountcore/mountsource/compositing/subvolumes.py
index 7465677..2c5246d 100644
--- a/core/ratarmountcore/mountsource/compositing/subvolumes.py
+++ b/core/ratarmountcore/mountsource/compositing/subvolumes.py
@@ -34,6 +34,21 @@ class SubvolumesMountSource(MountSource):
             folder = folder[part]
         return folder
 
+    def _get_subvolume(self, subvolume: str) -> MountSource:
+        """Returns the mount source for a subvolume path, which may contain slashes for nested mount points."""
+        mountSource = self._get_by_path(subvolume)
+        if not isinstance(mountSource, MountSource):
+            raise FileNotFoundError(f"Nothing is mounted at subvolume: {subvolume}")
+        return mountSource
+
+    def _mounted(self, folder: Optional[dict[str, Any]] = None) -> Iterable[MountSource]:
+        """Iterates recursively over all mounted mount sources."""
+        for child in (self.mountSources if folder is None else folder).values():
+            if isinstance(child, MountSource):
+                yield child
+            else:
+                yield from self._mounted(child)
+
     def is_mountable(self, path: str) -> bool:
         # Ensuring a leading slash before calling normpath has the effect of eating all leading '/..'.
         parent, name = ('/' + posixpath.normpath('/' + path).strip('/')).rsplit('/', maxsplit=1)
@@ -176,7 +191,7 @@ class SubvolumesMountSource(MountSource):
         if subvolume is None:
             raise ValueError(f"Found subvolume is None for fileInfo: {fileInfo}")
         try:
-            return self.mountSources[subvolume].open(fileInfo, buffering=buffering)
+            return self._get_subvolume(subvolume).open(fileInfo, buffering=buffering)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -186,7 +201,7 @@ class SubvolumesMountSource(MountSource):
         if subvolume is None:
             raise ValueError(f"Found subvolume is None for fileInfo: {fileInfo}")
         try:
-            return self.mountSources[subvolume].read(fileInfo, size, offset)
+            return self._get_subvolume(subvolume).read(fileInfo, size, offset)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -194,7 +209,7 @@ class SubvolumesMountSource(MountSource):
     def list_xattr(self, fileInfo: FileInfo) -> builtins.list[str]:
         subvolume = fileInfo.userdata.pop()
         try:
-            return [] if subvolume is None else self.mountSources[subvolume].list_xattr(fileInfo)
+            return [] if subvolume is None else self._get_subvolume(subvolume).list_xattr(fileInfo)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -202,7 +217,7 @@ class SubvolumesMountSource(MountSource):
     def get_xattr(self, fileInfo: FileInfo, key: str) -> Optional[bytes]:
         subvolume = fileInfo.userdata.pop()
         try:
-            return None if subvolume is None else self.mountSources[subvolume].get_xattr(fileInfo, key)
+            return None if subvolume is None else self._get_subvolume(subvolume).get_xattr(fileInfo, key)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -211,19 +226,19 @@ class SubvolumesMountSource(MountSource):
         sourceFileInfo = fileInfo.clone()
         subvolume = sourceFileInfo.userdata.pop()
 
-        if subvolume is None or subvolume not in self.mountSources:
+        mountSource = None if subvolume is None else self._get_by_path(subvolume)
+        if not isinstance(mountSource, MountSource):
             return '/', self, fileInfo
-        mountSource = self.mountSources[subvolume]
 
         subpath, subMountSource, subFileInfo = mountSource.get_mount_source(sourceFileInfo)
         return posixpath.normpath(f"/{subvolume}/{subpath}"), subMountSource, subFileInfo
 
     @overrides(MountSource)
     def __exit__(self, exception_type, exception_value, exception_traceback):
-        for mountSource in self.mountSources.values():
+        for mountSource in self._mounted():
             mountSource.__exit__(exception_type, exception_value, exception_traceback)
 
     def join_threads(self):
-        for mountSource in self.mountSources:
+        for mountSource in self._mounted():
             if hasattr(mountSource, 'join_threads'):
                 mountSource.join_threads()
-- 
2.43.0


From eb4bc127c195c1ab9fadab25b0b0b2b6b75ecd97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:23:17 +0000
Subject: [PATCH 07/65] fix: do not create empty folders when only checking for
 mountable paths

---
 core/ratarmountcore/mountsource/compositing/subvolumes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/subvolumes.py b/core/ratarmountcore/mountsource/compositing/subvolumes.py
index 2c5246d..ffccc6c 100644
--- a/core/ratarmountcore/mountsource/compositing/subvolumes.py
+++ b/core/ratarmountcore/mountsource/compositing/subvolumes.py
@@ -53,10 +53,10 @@ class SubvolumesMountSource(MountSource):
         # Ensuring a leading slash before calling normpath has the effect of eating all leading '/..'.
         parent, name = ('/' + posixpath.normpath('/' + path).strip('/')).rsplit('/', maxsplit=1)
         try:
-            folder = self._get_by_path(parent, create=True)
+            folder = self._get_by_path(parent)
         except RatarmountError:
             return False
-        return bool(name) and folder is not None and isinstance(folder, dict) and (name not in folder)
+        return bool(name) and (folder is None or (isinstance(folder, dict) and (name not in folder)))
 
     def mount(self, path: str, target: MountSource) -> bool:
         """Adds a mount source at the specified path. Must not overlap with existing mounts. Return true on success."""
-- 
2.43.0


From 4954724354817e6c9aa4e7857c830f15472c80ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:14 +0000
Subject: [PATCH 08/65] fix: restore the file info when opening a folder above
 subvolumes fails

---
 core/ratarmountcore/mountsource/compositing/subvolumes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/subvolumes.py b/core/ratarmountcore/mountsource/compositing/subvolumes.py
index ffccc6c..f3b4672 100644
--- a/core/ratarmountcore/mountsource/compositing/subvolumes.py
+++ b/core/ratarmountcore/mountsource/compositing/subvolumes.py
@@ -188,9 +188,9 @@ class SubvolumesMountSource(MountSource):
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
         subvolume = fileInfo.userdata.pop()
-        if subvolume is None:
-            raise ValueError(f"Found subvolume is None for fileInfo: {fileInfo}")
         try:
+            if subvolume is None:
+                raise ValueError(f"Found subvolume is None for fileInfo: {fileInfo}")
             return self._get_subvolume(subvolume).open(fileInfo, buffering=buffering)
         finally:
             fileInfo.userdata.append(subvolume)
@@ -198,9 +198,9 @@ class SubvolumesMountSource(MountSource):
     @overrides(MountSource)
     def read(self, fileInfo: FileInfo, size: int, offset: int) -> bytes:
         subvolume = fileInfo.userdata.pop()
-        if subvolume is None:
-            raise ValueError(f"Found subvolume is None for fileInfo: {fileInfo}")
         try:
+            if subvolume is None:
+                raise ValueError(f"Found subvolume is None for fileInfo: {fileInfo}")
             return self._get_subvolume(subvolume).read(fileInfo, size, offset)
         finally:
             fileInfo.userdata.append(subvolume)
-- 
2.43.0


From b2337ec0400dc5d5d49453d10d8d7035df491998 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:58 +0000
Subject: [PATCH 09/65] fix: return file infos without user data of the version
 layer from get_mount_source

Mount sources may return the given file info, to which the version layer appended
its own user data again, so that it could not be used with the returned mount source.
---
 .../mountsource/compositing/versioning.py           | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index 73f6cbf..d6d5af8 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -254,13 +254,12 @@ class FileVersionLayer(MountSource):
 
     @overrides(MountSource)
     def get_mount_source(self, fileInfo: FileInfo) -> tuple[str, MountSource, FileInfo]:
-        fileType = fileInfo.userdata.pop()
-        try:
-            if fileType == FileType.VERSIONS_FOLDER:
-                return '/', self, fileInfo
-            return self.mountSource.get_mount_source(fileInfo)
-        finally:
-            fileInfo.userdata.append(fileType)
+        # Clone because the mount source may return the given file info object and it must not contain our user data.
+        sourceFileInfo = fileInfo.clone()
+        fileType = sourceFileInfo.userdata.pop()
+        if fileType == FileType.VERSIONS_FOLDER:
+            return '/', self, fileInfo
+        return self.mountSource.get_mount_source(sourceFileInfo)
 
     @overrides(MountSource)
     def list_xattr(self, fileInfo: FileInfo) -> builtins.list[str]:
-- 
2.43.0


From 6eeefad1d76ae3615e8f50edcb771927684a6c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:58 +0000
Subject: [PATCH 10/65] fix: report missing files for version folders of files
 that do not exist

Looking up foo.versions failed with an AssertionError when foo does not exist
and listing it returned an empty folder.
---
 core/ratarmountcore/mountsource/compositing/versioning.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index d6d5af8..340ce00 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -78,9 +78,11 @@ class FileVersionLayer(MountSource):
 
             # If current path does not exist, check if it is a special versions path
             if part.endswith('.versions') and len(part) > len('.versions'):
+                filePath = tmpFilePath[: -len('.versions')]
+                if not self.mountSource.lookup(filePath):
+                    return None
                 pathIsSpecialVersionsFolder = True
                 fileVersion = 0
-                filePath = tmpFilePath[: -len('.versions')]
                 continue
 
             # Parent path does not exist and is not a versions path, so any subpaths also won't exist either
-- 
2.43.0


From 6fc2aa3d8fd8c126912a75a644ec263de55eaf33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:58 +0000
Subject: [PATCH 11/65] fix: resolve hard links to older versions of themselves
 and hard links in version folders

A hard link to itself was resolved to the oldest version instead of the next
older one. Hard links accessed via <name>.versions/<n> were not resolved at all.
---
 .../mountsource/compositing/versioning.py            | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index 340ce00..bc1ff40 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -100,15 +100,14 @@ class FileVersionLayer(MountSource):
         return bool(not stat.S_ISREG(fileInfo.mode) and not stat.S_ISLNK(fileInfo.mode) and fileInfo.linkname)
 
     @staticmethod
-    def _resolve_hard_links(mountSource: MountSource, path: str) -> Optional[FileInfo]:
+    def _resolve_hard_links(mountSource: MountSource, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
         """path : Simple path. Should contain no special versioning folders!"""
 
-        fileInfo = mountSource.lookup(path)
+        fileInfo = mountSource.lookup(path, fileVersion=fileVersion)
         if not fileInfo:
             return None
 
         resolvedPath = '/' + fileInfo.linkname.lstrip('/') if FileVersionLayer._is_hard_link(fileInfo) else None
-        fileVersion = 0
         hardLinkCount = 0
 
         while resolvedPath and hardLinkCount < 128:  # For comparison, the maximum symbolic link chain in Linux is 40.
@@ -135,7 +134,10 @@ class FileVersionLayer(MountSource):
                 # If file is referencing itself, try to access earlier version of it.
                 # The check for fileVersion against the total number of available file versions is omitted because
                 # that check is done implicitly inside the mount sources lookup method!
-                fileVersion = fileVersion + 1 if fileVersion >= 0 else fileVersion - 1
+                # Version 1 is the oldest one and 0, -1, -2, ... count back from the most recent one.
+                if fileVersion == 1:
+                    return None
+                fileVersion -= 1
 
             path = resolvedPath
             fileInfo = mountSource.lookup(path, fileVersion)
@@ -225,7 +227,7 @@ class FileVersionLayer(MountSource):
             # fmt: on
 
         # 3.) At this point the request is for an actually older version of a file or folder
-        fileInfo = self.mountSource.lookup(path, fileVersion=fileVersion)
+        fileInfo = FileVersionLayer._resolve_hard_links(self.mountSource, path, fileVersion)
         if fileInfo:
             fileInfo.userdata.append(FileType.FILE)
         return fileInfo
-- 
2.43.0


From e0437eadfb0f7a3087165c30715fd8f43e7035c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:58 +0000
Subject: [PATCH 12/65] fix: forward the file version when looking up files in
 moved mount sources

---
 .../ratarmountcore/mountsource/compositing/removeprefix.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/removeprefix.py b/core/ratarmountcore/mountsource/compositing/removeprefix.py
index 53a7978..7379a5c 100644
--- a/core/ratarmountcore/mountsource/compositing/removeprefix.py
+++ b/core/ratarmountcore/mountsource/compositing/removeprefix.py
@@ -44,7 +44,12 @@ class RemovePrefixMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
-        return self._parse_path(path, self.mountSource.lookup, lambda _: self._directory_info.clone(), None)
+        return self._parse_path(
+            path,
+            lambda subpath: self.mountSource.lookup(subpath, fileVersion=fileVersion),
+            lambda _: self._directory_info.clone(),
+            None,
+        )
 
     @overrides(MountSource)
     def versions(self, path: str) -> int:
-- 
2.43.0


From 46db3f8696c108b0553e2d9cac82bc72c77a259f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:09 +0000
Subject: [PATCH 13/65] fix: count versions in union mounts of sources that do
 not support file versions

Folders ignore the requested file version, so that all versions of a file
existing in a folder and an archive were those of the leftmost folder.
---
 .../mountsource/compositing/union.py               | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/union.py b/core/ratarmountcore/mountsource/compositing/union.py
index 406c515..10d565d 100644
--- a/core/ratarmountcore/mountsource/compositing/union.py
+++ b/core/ratarmountcore/mountsource/compositing/union.py
@@ -121,25 +121,27 @@ class UnionMountSource(MountSource):
         # We need to keep the sign of the fileVersion in order to forward it to SQLiteIndexedTar.
         # When the requested version can't be found in a mount source, increment negative specified versions
         # by the amount of versions in that mount source or decrement the initially positive version.
+        # Check the number of versions before the lookup because mount sources without support for file versions,
+        # e.g., folders, ignore the requested version.
         if fileVersion <= 0:
             for mountSource in reversed(mountSources):
+                if fileVersion < 0 and (versions := mountSource.versions(path)) <= -fileVersion:
+                    fileVersion += versions
+                    continue
                 fileInfo = mountSource.lookup(path, fileVersion=fileVersion)
                 if isinstance(fileInfo, FileInfo):
                     fileInfo.userdata.append(mountSource)
                     return fileInfo
-                fileVersion += mountSource.versions(path)
-                if fileVersion > 0:
-                    break
 
         else:  # fileVersion >= 1
             for mountSource in mountSources:
+                if (versions := mountSource.versions(path)) < fileVersion:
+                    fileVersion -= versions
+                    continue
                 fileInfo = mountSource.lookup(path, fileVersion=fileVersion)
                 if isinstance(fileInfo, FileInfo):
                     fileInfo.userdata.append(mountSource)
                     return fileInfo
-                fileVersion -= mountSource.versions(path)
-                if fileVersion < 1:
-                    break
 
         return None
 
-- 
2.43.0


From d6fe61e21bc1af90a6891ba405d4f9b52fe1a05b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:44 +0000
Subject: [PATCH 14/65] fix: keep the contents when truncating files that are
 already in the write overlay

---
 ratarmount/WriteOverlay.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index c14ca4c..aa30ade 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -161,6 +161,10 @@ class WritableFolderMountSource(fuse.Operations):
             os.makedirs(self._realpath(parentPath), exist_ok=True)
 
     def _ensure_file_is_modifiable(self, path):
+        # Do not overwrite a file, which already has been copied, with itself.
+        if os.path.lexists(self._realpath(path)):
+            return
+
         self._ensure_parent_exists(path)
         with (
             self.mountSource.open(self.mountSource.lookup(path)) as sourceObject,
-- 
2.43.0


From 45fa1f461dcf19a0026acc8a8172cab628bc7579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:44 +0000
Subject: [PATCH 15/65] fix: keep permissions and owners of files and folders
 when copying them into the write overlay

---
 ratarmount/WriteOverlay.py | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index aa30ade..ddc501a 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -158,14 +158,28 @@ class WritableFolderMountSource(fuse.Operations):
         """
         parentPath = self._split_path(path)[0]
         if not os.path.exists(self._realpath(parentPath)) and self.mountSource.is_dir(parentPath):
+            self._ensure_parent_exists(parentPath)
+            self._keep_permissions(parentPath)
             os.makedirs(self._realpath(parentPath), exist_ok=True)
 
+    def _keep_permissions(self, path):
+        """Stores permissions and owner, which would get lost when creating a copy of path in the overlay folder."""
+        fileInfo = self.mountSource.lookup(path)
+        if fileInfo is None:
+            return
+        folder, name = self._split_path(path)
+        self.sqlConnection.execute(
+            'INSERT OR IGNORE INTO "files" (path,name,mode,uid,gid,deleted) VALUES (?,?,?,?,?,?)',
+            (folder, name, fileInfo.mode, fileInfo.uid, fileInfo.gid, False),
+        )
+
     def _ensure_file_is_modifiable(self, path):
         # Do not overwrite a file, which already has been copied, with itself.
         if os.path.lexists(self._realpath(path)):
             return
 
         self._ensure_parent_exists(path)
+        self._keep_permissions(path)
         with (
             self.mountSource.open(self.mountSource.lookup(path)) as sourceObject,
             open(self._realpath(path), 'wb') as targetObject,
-- 
2.43.0


From 657b38419cd69c4d845df200911d57866f8e949c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:05 +0000
Subject: [PATCH 16/65] fix: truncate files opened with O_TRUNC even if nothing
 is written to them

---
 ratarmount/FuseMount.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 91a5275..c8ccb40 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -778,6 +778,10 @@ class FuseMount(fuse.Operations):
 
         fileInfo = self._lookup(path)
 
+        # Truncate the file right away because nothing else may be written to the opened file.
+        if self.writeOverlay and (flags & os.O_TRUNC) and (flags & (os.O_WRONLY | os.O_RDWR)):
+            return self._add_new_handle(self.writeOverlay.open(path, flags), flags)
+
         try:
             # If the flags indicate "open for modification", then still open it as read-only through the mount source
             # but store information to reopen it for write access on write calls.
-- 
2.43.0


From ae081218a70af238179a60b4f0ccd6ca9e1a0b4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:40 +0000
Subject: [PATCH 17/65] fix: create links and special files in the write
 overlay below archive folders and at paths of deleted files

---
 ratarmount/WriteOverlay.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index ddc501a..a2d4344 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -198,6 +198,10 @@ class WritableFolderMountSource(fuse.Operations):
             (folder, name),
         )
 
+    def _clear_metadata(self, path: str):
+        """Forgets deletions and metadata of files that were at the given path before."""
+        self.sqlConnection.execute('DELETE FROM "files" WHERE (path,name) == (?,?)', self._split_path(path))
+
     def _mark_as_deleted(self, path: str):
         """Hides the given path if it exists in the underlying mount source."""
         folder, name = self._split_path(path)
@@ -367,7 +371,9 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('target')
     def symlink(self, target: str, source: str):
+        self._ensure_parent_exists(target)
         os.symlink(source, self._realpath(target))
+        self._clear_metadata(target)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('target')
@@ -377,9 +383,13 @@ class WritableFolderMountSource(fuse.Operations):
         if not os.path.lexists(overlaySource) and self.mountSource.lookup(source):
             raise fuse.FuseOSError(errno.EXDEV)
 
-        target = self._realpath(target)
-
-        os.link(overlaySource, target)
+        self._ensure_parent_exists(target)
+        os.link(overlaySource, self._realpath(target))
+        self._clear_metadata(target)
+        self.sqlConnection.execute(
+            'INSERT INTO "files" SELECT ?,?,mtime,mode,uid,gid,deleted FROM "files" WHERE (path,name) == (?,?)',
+            (*self._split_path(target), *self._split_path(source)),
+        )
 
     # Folders
 
@@ -459,6 +469,7 @@ class WritableFolderMountSource(fuse.Operations):
     def mknod(self, path: str, mode: int, dev: int):
         self._ensure_parent_exists(path)
         os.mknod(self._realpath(path), mode, dev)
+        self._clear_metadata(path)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
-- 
2.43.0


From 4d0a75456b68450619d108dea4868a1ea8b60566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:17 +0000
Subject: [PATCH 18/65] fix: renaming in the write overlay hides the old path
 and keeps links, folders, and metadata

---
 ratarmount/WriteOverlay.py | 70 +++++++++++++++++++++++++++++++-------
 1 file changed, 57 insertions(+), 13 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index a2d4344..3aa9c9e 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -342,29 +342,73 @@ class WritableFolderMountSource(fuse.Operations):
 
         self._set_file_metadata(path, lambda p: os.utime(p, ns=ns), {'mtime': mtime})
 
+    def _list_visible(self, path: str) -> list[str]:
+        """Returns the names of all entries in the given folder that are not marked as deleted."""
+        contents = self.mountSource.list_mode(path)
+        deleted = set(self.list_deleted(path))
+        return [name for name in contents or [] if name not in deleted]
+
+    def _list_recursively(self, path: str) -> list[str]:
+        """Returns the given path and, if it is a folder, everything below it."""
+        paths = [path]
+        if self.mountSource.is_dir(path):
+            for name in self._list_visible(path):
+                paths.extend(self._list_recursively(f"{path.rstrip('/')}/{name}"))
+        return paths
+
     @overrides(fuse.Operations)
     def rename(self, old: str, new: str):
-        if not self.mountSource.exists(old) or self.is_deleted(old):
+        if self.is_deleted(old):
+            raise fuse.FuseOSError(errno.ENOENT)
+        fileInfo = self.mountSource.lookup(old)
+        if fileInfo is None:
             raise fuse.FuseOSError(errno.ENOENT)
 
-        folder, name = self._split_path(new)
+        if stat.S_ISDIR(fileInfo.mode):
+            if self.mountSource.is_dir(new) and not self.is_deleted(new) and self._list_visible(new):
+                raise fuse.FuseOSError(errno.ENOTEMPTY)
 
-        # Delete target path from metadata database to avoid uniqueness restraint being invalidated
-        self.sqlConnection.execute('DELETE FROM "files" WHERE "path" == (?) and "name" == (?)', (folder, name))
-        self._set_file_metadata(old, lambda p: None, {'path': folder, 'name': name})
+        # Folders can only be renamed if everything in them is in the overlay folder. On EXDEV, mv and others will
+        # create a new folder and move the contents separately.
+        oldPaths = self._list_recursively(old)
+        isInOverlay = os.path.lexists(self._realpath(old))
+        if stat.S_ISDIR(fileInfo.mode):
+            if not all(os.path.lexists(self._realpath(path)) for path in oldPaths):
+                raise fuse.FuseOSError(errno.EXDEV)
+        elif not isInOverlay and not stat.S_ISREG(fileInfo.mode) and not stat.S_ISLNK(fileInfo.mode):
+            raise fuse.FuseOSError(errno.EXDEV)
 
         self._ensure_parent_exists(new)
-        if os.path.lexists(self._realpath(old)):
+        if isInOverlay:
             os.rename(self._realpath(old), self._realpath(new))
         else:
-            fileInfo = self.mountSource.lookup(old)
-            if fileInfo is None:
-                raise fuse.FuseOSError(errno.ENOENT)
-
-            with self.mountSource.open(fileInfo) as sourceObject, open(self._realpath(new), 'wb') as targetObject:
-                shutil.copyfileobj(sourceObject, targetObject)
+            if os.path.lexists(self._realpath(new)):
+                os.unlink(self._realpath(new))
+            if stat.S_ISLNK(fileInfo.mode):
+                os.symlink(fileInfo.linkname, self._realpath(new))
+            else:
+                with self.mountSource.open(fileInfo) as sourceObject, open(self._realpath(new), 'wb') as targetObject:
+                    shutil.copyfileobj(sourceObject, targetObject)
+
+        for oldPath in oldPaths:
+            newPath = new + oldPath[len(old) :]
+            folder, name = self._split_path(newPath)
+
+            # Delete target path from metadata database to avoid uniqueness restraint being invalidated
+            self._clear_metadata(newPath)
+            existsInMetadata = self.sqlConnection.execute(
+                'SELECT COUNT(*) > 0 FROM "files" WHERE (path,name) == (?,?)', self._split_path(oldPath)
+            ).fetchone()[0]
+            if existsInMetadata:
+                self._set_metadata(oldPath, {'path': folder, 'name': name})
+            elif not isInOverlay:
+                self.sqlConnection.execute(
+                    f'INSERT INTO "files" VALUES ({",".join(["?"] * 7)})',
+                    (folder, name, fileInfo.mtime, fileInfo.mode, fileInfo.uid, fileInfo.gid, False),
+                )
 
-            self._mark_as_deleted(old)
+            # Hide files that are still available at the old path in the mount source.
+            self._mark_as_deleted(oldPath)
 
     # Links
 
-- 
2.43.0


From 2fc7ff499e6f9f1fda8e7d144aa0b22e73aad9a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:14 +0000
Subject: [PATCH 19/65] fix: show the new modification time after writing to
 files with stored metadata in the write overlay

---
 ratarmount/WriteOverlay.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 3aa9c9e..f196d1d 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -202,6 +202,12 @@ class WritableFolderMountSource(fuse.Operations):
         """Forgets deletions and metadata of files that were at the given path before."""
         self.sqlConnection.execute('DELETE FROM "files" WHERE (path,name) == (?,?)', self._split_path(path))
 
+    def _clear_mtime(self, path: str):
+        """Forgets the stored modification time because the contents have been changed."""
+        self.sqlConnection.execute(
+            'UPDATE "files" SET mtime=NULL WHERE (path,name) == (?,?) AND mtime IS NOT NULL', self._split_path(path)
+        )
+
     def _mark_as_deleted(self, path: str):
         """Hides the given path if it exists in the underlying mount source."""
         folder, name = self._split_path(path)
@@ -478,7 +484,10 @@ class WritableFolderMountSource(fuse.Operations):
             if flags & (os.O_WRONLY | os.O_RDWR):
                 self._ensure_file_is_modifiable(path)
 
-        return os.open(self._realpath(path), flags)
+        result = os.open(self._realpath(path), flags)
+        if flags & os.O_TRUNC:
+            self._clear_mtime(path)
+        return result
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
@@ -520,6 +529,7 @@ class WritableFolderMountSource(fuse.Operations):
     def truncate(self, path: str, length: int, fh=None):
         self._ensure_file_is_modifiable(path)
         os.truncate(self._realpath(path), length)
+        self._clear_mtime(path)
 
     # Actual writing
 
@@ -527,7 +537,9 @@ class WritableFolderMountSource(fuse.Operations):
     @check_ignored_prefixes('path')
     def write(self, path: str, data, offset: int, fh):
         os.lseek(fh, offset, 0)
-        return os.write(fh, data)
+        result = os.write(fh, data)
+        self._clear_mtime(path)
+        return result
 
     # Flushing
 
-- 
2.43.0


From bd4f7168c65eea0bcf854c70c17d112aa4e62831 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:15 +0000
Subject: [PATCH 20/65] fix: report the free space of the write overlay

---
 ratarmount/FuseMount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index c8ccb40..ca6be45 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -905,8 +905,8 @@ class FuseMount(fuse.Operations):
             keys = ['f_bsize', 'f_frsize']
             result = self.writeOverlay.statfs(path).copy()
             result.update({key: value for key, value in self.mountSource.statfs().items() if key in keys})
-
-        result = self.mountSource.statfs()
+        else:
+            result = self.mountSource.statfs()
 
         # Use a relatively large minimum 256 KiB block size to direct filesystem users to use larger reads
         # because they have a relative large overhead because of the fusepy, libfuse, kernel FUSE, SQLite,
-- 
2.43.0


From 22f28a7f440a25b45d5e16f61b032fb74fa1df9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:15 +0000
Subject: [PATCH 21/65] fix: forget the handles of released files

---
 ratarmount/FuseMount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index ca6be45..1f16e7f 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -799,7 +799,7 @@ class FuseMount(fuse.Operations):
         if fh not in self.openedFiles:
             raise fuse.FuseOSError(errno.ESTALE)
 
-        openedFile = self._resolve_file_handle(fh)
+        _, openedFile = self.openedFiles.pop(fh)
         if isinstance(openedFile, int):
             os.close(openedFile)
         else:
-- 
2.43.0


From eafd20b5f956bc4379ae84a45584f1423f140c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:56 +0000
Subject: [PATCH 22/65] fix: show the right metadata, links, and contents for
 listed files of folders

---
 .../mountsource/formats/folder.py             | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/folder.py b/core/ratarmountcore/mountsource/formats/folder.py
index 198453c..453aea9 100644
--- a/core/ratarmountcore/mountsource/formats/folder.py
+++ b/core/ratarmountcore/mountsource/formats/folder.py
@@ -81,14 +81,12 @@ class FolderMountSource(MountSource):
         )
         # fmt: on
 
-    @staticmethod
-    def _dir_entry_to_file_info(dirEntry: os.DirEntry, path: str, realpath: str):
-        try:
-            linkname = os.readlink(realpath) if dirEntry.is_symlink() else ""
-        except OSError:
-            linkname = ""
-
-        return FolderMountSource._stats_to_file_info(dirEntry.stat(follow_symlinks=False), linkname, path)
+    def _dir_entry_to_file_info(self, dirEntry: os.DirEntry, path: str):
+        filePath = (path.strip('/') + '/' + os.fsdecode(dirEntry.name)).lstrip('/')
+        # Symbolic links might have to be resolved when pointing outside the source folder.
+        if dirEntry.is_symlink() and (fileInfo := self.lookup(filePath)):
+            return fileInfo
+        return self._stats_to_file_info(dirEntry.stat(follow_symlinks=False), filePath, "")
 
     @overrides(MountSource)
     def is_immutable(self) -> bool:
@@ -134,7 +132,7 @@ class FolderMountSource(MountSource):
             return None
 
         return {
-            os.fsdecode(dirEntry.name): FolderMountSource._dir_entry_to_file_info(dirEntry, path, realpath)
+            os.fsdecode(dirEntry.name): self._dir_entry_to_file_info(dirEntry, path)
             for dirEntry in os.scandir(realpath)
         }
 
@@ -153,7 +151,9 @@ class FolderMountSource(MountSource):
         def make_mode(dirEntry):
             mode = stat.S_IFDIR if dirEntry.is_dir(follow_symlinks=False) else stat.S_IFREG
             if dirEntry.is_symlink():
-                mode = stat.S_IFLNK
+                # Symbolic links pointing outside the source folder are shown as what they point to.
+                fileInfo = self.lookup(path.strip('/') + '/' + os.fsdecode(dirEntry.name))
+                mode = stat.S_IFMT(fileInfo.mode) if fileInfo else stat.S_IFLNK
             return mode
 
         return {os.fsdecode(dirEntry.name): make_mode(dirEntry) for dirEntry in os.scandir(realpath)}
-- 
2.43.0


From 8e41144f7cae511c50a9920c7e384bf454df507b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:18 +0000
Subject: [PATCH 23/65] fix: make file infos listed by recursively mounted
 sources usable

---
 .../mountsource/compositing/automount.py               | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 1c6c283..3b0305f 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -347,9 +347,13 @@ class AutoMountLayer(MountSource):
     @overrides(MountSource)
     def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
         mountPoint, pathInMountPoint = self._find_mounted(path)
-        return self._append_mount_points(
-            path, self.mounted[mountPoint].mountSource.list(pathInMountPoint), onlyMode=False
-        )
+        files = self.mounted[mountPoint].mountSource.list(pathInMountPoint)
+        if isinstance(files, dict):
+            # As for lookup, the mount point is required for using the file infos, e.g., with open.
+            files = {name: fileInfo.clone() for name, fileInfo in files.items()}
+            for fileInfo in files.values():
+                fileInfo.userdata.append(mountPoint)
+        return self._append_mount_points(path, files, onlyMode=False)
 
     @overrides(MountSource)
     def list_mode(self, path: str) -> Optional[Union[Iterable[str], dict[str, int]]]:
-- 
2.43.0


From 496551b8721dc295305a34bd209c00660bdf3ca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:29 +0000
Subject: [PATCH 24/65] fix: do not show versions that do not exist for
 recursively mounted sources

---
 .../mountsource/compositing/automount.py      | 21 +++++++++++--------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 3b0305f..4907a95 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -287,24 +287,27 @@ class AutoMountLayer(MountSource):
         if mountPoint != '/' and pathInMountPoint == '/':
             originalFileVersions = self.mounted['/'].mountSource.versions(path)
 
-        def normalize_file_version(version, versions):
-            return ((version - 1) % versions + 1) % versions if versions > 1 else version
-
         # fileVersion=0 is the most recent. Version 1..fileVersions number from the first occurrence / oldest
         # version to the most recent, i.e., fileVersion = 0 is equivalent to fileVersion = fileVersions.
+        # Negative versions count backwards from the most recent one.
         fileVersions = self.versions(path)
-        fileVersion = normalize_file_version(fileVersion, fileVersions)
-        if fileVersion == 0 and pathInMountPoint == '/':
+        if fileVersion < 0:
+            fileVersion += fileVersions
+            if fileVersion <= 0:
+                return None
+        if fileVersion > fileVersions:
+            return None
+        if fileVersion in (0, fileVersions) and pathInMountPoint == '/':
             return mountInfo.rootFileInfo.clone()
 
-        if fileVersions <= 1 or pathInMountPoint != '/' or fileVersion == 0 or fileVersion > originalFileVersions:
-            fileInfo = mountInfo.mountSource.lookup(pathInMountPoint, fileVersion - originalFileVersions)
+        if fileVersion == 0 or fileVersion > originalFileVersions:
+            fileInfo = mountInfo.mountSource.lookup(pathInMountPoint, max(0, fileVersion - originalFileVersions))
             if fileInfo:
                 fileInfo.userdata.append(mountPoint)
             return fileInfo
 
-        # We are here if: fileVersions > 1 and 0 < fileVersion <= originalFileVersions and pathInMountPoint == '/'
-        fileInfo = self.mounted['/'].mountSource.lookup(path, fileVersion % originalFileVersions)
+        # We are here if: 0 < fileVersion <= originalFileVersions and pathInMountPoint == '/'
+        fileInfo = self.mounted['/'].mountSource.lookup(path, fileVersion)
         if fileInfo:
             fileInfo.userdata.append('/')
         return fileInfo
-- 
2.43.0


From 44766cd3bc2c8e32bea1e069fb2ee4d627324420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:29 +0000
Subject: [PATCH 25/65] fix: list empty folders in recursively mounted sources
 as empty instead of missing

---
 core/ratarmountcore/mountsource/compositing/automount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 4907a95..65ce8f6 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -313,7 +313,7 @@ class AutoMountLayer(MountSource):
         return fileInfo
 
     def _append_mount_points(self, path: str, files, onlyMode: bool):
-        if not files:
+        if files is None:
             return None
 
         if not isinstance(files, dict):
-- 
2.43.0


From 26d1219bc4a4aed0a81407699690f1fb5f198678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:41 +0000
Subject: [PATCH 26/65] fix: join split files inside recursively mounted
 archives

---
 core/ratarmountcore/mountsource/compositing/automount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 65ce8f6..94f00a0 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -178,7 +178,7 @@ class AutoMountLayer(MountSource):
         # We need to list the whole parent folder to successfully check for split files.
         joinedFile: Optional[IO[bytes]] = None
         if FIRST_SPLIT_EXTENSION_REGEX.fullmatch(os.path.splitext(path)[1]):
-            parentFolder, splitCandidateName = os.path.split(path)
+            parentFolder, splitCandidateName = os.path.split(pathInsideParentMountPoint)
             listResult = parentMountSource.list_mode(parentFolder)
             if not listResult:
                 return None
-- 
2.43.0


From 7edfed5c6e9caea1334380dad78b194cb1b7ddcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:00 +0000
Subject: [PATCH 27/65] fix: do not open other files instead of the given one
 when those look like a split file

---
 core/ratarmountcore/compressions.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/compressions.py b/core/ratarmountcore/compressions.py
index bcf7c11..3665334 100644
--- a/core/ratarmountcore/compressions.py
+++ b/core/ratarmountcore/compressions.py
@@ -319,7 +319,7 @@ def check_for_split_file_in(path: str, candidateNames: Iterable[str]) -> Optiona
     # These character tests are necessary because Python's built-in isalpha, isdigit and such
     # all also return true for a lot of Unicode alternatives like for the Thai zero.
 
-    filename = os.path.split(os.path.realpath(path))[1]  # Get file extensions
+    filename = os.path.split(path)[1]  # Get file extensions
     if '.' not in filename:
         return None
     basename, extension = filename.rsplit('.', maxsplit=1)
@@ -338,7 +338,8 @@ def check_for_split_file_in(path: str, candidateNames: Iterable[str]) -> Optiona
         extensionSequence = check_for_sequence(
             extensions, lambda i, baseDigits=baseDigits: format_number(i, baseDigits, len(extension))  # type: ignore
         )
-        if len(extensionSequence) > len(maxExtensions):
+        # The given file itself might not be a part, e.g., foo.zip or foo.010 beside foo.001 and foo.002.
+        if extension in extensionSequence and len(extensionSequence) > len(maxExtensions):
             maxFormatSpecifier = formatSpecifier
             maxExtensions = extensionSequence
 
-- 
2.43.0


From 1b5283613b8e73d96b7479c63bd55022811cef07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 28/65] fix: do not use the index of an archive that has grown
 since

Only TAR archives can be appended to without invalidating the existing part
of the index and those have their own check. For all other formats, the
outdated index was used, which hid the added files and mixed up the contents
of the old ones.
---
 core/ratarmountcore/SQLiteIndex.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 015f928..50fdc9e 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -538,10 +538,10 @@ class SQLiteIndex:
         if (
             hasattr(archiveStats, 'st_size')
             and 'st_size' in storedStats
-            and archiveStats.st_size < storedStats['st_size']
+            and archiveStats.st_size != storedStats['st_size']
         ):
             raise InvalidIndexError(
-                f"Archive for this SQLite index has shrunk in size from "
+                f"Archive for this SQLite index has changed in size from "
                 f"{storedStats['st_size']} to {archiveStats.st_size}"
             )
 
-- 
2.43.0


From b46117188ef5baa7862351272e32ea5f96e6f2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:43 +0000
Subject: [PATCH 29/65] fix: keep the archive stats for which a loaded index
 was created

Each time an index was loaded, the size and modification time at that time
were stored. After mounting a changed archive once without --verify-mtime,
the outdated index was also accepted with --verify-mtime.
---
 core/ratarmountcore/SQLiteIndex.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 50fdc9e..6d147f6 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -462,6 +462,11 @@ class SQLiteIndex:
             return
 
         try:
+            # Metadata is also stored after loading an index. Do not make an index look more recent than it is.
+            query = 'SELECT 1 FROM "metadata" WHERE "key" == ?;'
+            if self.get_connection().execute(query, ("tarstats",)).fetchone():
+                return
+
             tarStats = os.stat(filePath)
             serializedTarStats = json.dumps(
                 {attr: getattr(tarStats, attr) for attr in dir(tarStats) if attr.startswith('st_')}
-- 
2.43.0


From 73031cecd308b4acd85b334b045e05d3b9d9b50d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 30/65] fix: recreate an index that turns out not to match a
 grown TAR archive

The outdated index was left behind, so that the recreated one was written to
the next fallback path each time, or, when an index path was given, mounting
failed. The GNU incremental flag of the outdated index was also kept.
---
 core/ratarmountcore/mountsource/formats/tar.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 65a6dc8..d5833fc 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -718,8 +718,15 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                 self.index.reload_index_read_only()
                 return
 
+            # Remove the index because existing files will not be overwritten by the recreated index.
+            outdatedIndexFilePath = self.index.indexFilePath
             self.index.close()
+            if outdatedIndexFilePath and os.path.isfile(outdatedIndexFilePath):
+                os.remove(outdatedIndexFilePath)
             logger.warning("The loaded index does not match the archive. Will recreate it.")
+            # Forget what has been restored from the metadata of that index.
+            self._isGnuIncremental = isGnuIncremental
+            self.hasBeenAppendedTo = False
 
         # At this point, self.index.index_is_loaded() should return false because either it was false already
         # or the preemptive return was triggered above or the index was closed at the end of the above branch!
-- 
2.43.0


From 0133522d13888215f3ce1c2002121f5230b31f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:05 +0000
Subject: [PATCH 31/65] fix: do not mistake an index for complete when
 interrupted while creating its tables

An index file which only contains an empty files table was taken for the
complete index of an empty archive.
---
 core/ratarmountcore/SQLiteIndex.py          |  3 ++-
 core/ratarmountcore/create-index-tables.sql | 17 +++++++++--------
 2 files changed, 11 insertions(+), 9 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 6d147f6..e503229 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -606,7 +606,8 @@ class SQLiteIndex:
 
         try:
             connection = SQLiteIndex._open_sql_db(path)
-            connection.executescript('CREATE TABLE "files" ( "path" VARCHAR(65535) NOT NULL );')
+            # Do not name this table "files" or else it might get mistaken for a valid index if we get killed here.
+            connection.executescript('CREATE TABLE "writable" ( "path" VARCHAR(65535) NOT NULL );')
             connection.commit()
             connection.close()
             return True
diff --git a/core/ratarmountcore/create-index-tables.sql b/core/ratarmountcore/create-index-tables.sql
index e7e3091..0a84e6d 100644
--- a/core/ratarmountcore/create-index-tables.sql
+++ b/core/ratarmountcore/create-index-tables.sql
@@ -1,5 +1,14 @@
 /* This whole file should be idempotent, i.e., executing it twice in a row should work (use IF NOT EXISTS). */
 
+/* This must be created first and dropped last! Its existence marks the index as incomplete. */
+CREATE TABLE IF NOT EXISTS "parentfolders" (
+    "path"          VARCHAR(65535) NOT NULL,
+    "name"          VARCHAR(65535) NOT NULL,
+    "offsetheader"  INTEGER,
+    "offset"        INTEGER,
+    PRIMARY KEY ("path","name")
+);
+
 CREATE TABLE IF NOT EXISTS "files" (
     "path"           VARCHAR(65535) NOT NULL,  /* path with leading and without trailing slash */
     "name"           VARCHAR(65535) NOT NULL,
@@ -68,14 +77,6 @@ END;
  **/
 CREATE TABLE IF NOT EXISTS "filestmp" AS SELECT * FROM "files" WHERE 0;
 
-CREATE TABLE IF NOT EXISTS "parentfolders" (
-    "path"          VARCHAR(65535) NOT NULL,
-    "name"          VARCHAR(65535) NOT NULL,
-    "offsetheader"  INTEGER,
-    "offset"        INTEGER,
-    PRIMARY KEY ("path","name")
-);
-
 /* Table for storing information regarding the options used for creating the index.
  * Common keys: tarstats, arguments, isGnuIncremental, backendName */
 CREATE TABLE IF NOT EXISTS "metadata" (
-- 
2.43.0


From 831862fd986ee2c74cfc64ab525e0fa2d8b74671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:06 +0000
Subject: [PATCH 32/65] fix: store the metadata before the index counts as
 complete

When interrupted, e.g., while computing checksums, the index was accepted
even for a changed archive because there was no metadata to compare with.
---
 core/ratarmountcore/SQLiteIndex.py                        | 4 +++-
 core/ratarmountcore/mountsource/SQLiteIndexMountSource.py | 3 +++
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index e503229..9668e8c 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -498,7 +498,9 @@ class SQLiteIndex:
         self.store_metadata_key_value('backendName', self.backendName)
 
     def drop_metadata(self):
-        self.get_connection().executescript("DELETE FROM metadata; DELETE FROM versions;")
+        # Do not use executescript because it would commit before the new metadata has been stored.
+        self.get_connection().execute("DELETE FROM metadata;")
+        self.get_connection().execute("DELETE FROM versions;")
 
     def try_to_open_first_file(self, openByPath: Callable[[str], IO[bytes]]):
         # Get first row that has the regular file bit set in mode (stat.S_IFREG == 32768 == 1<<15).
diff --git a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
index 2df1a3a..c343079 100644
--- a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
+++ b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
@@ -227,6 +227,9 @@ class SQLiteIndexMountSource(MountSource):
 
         def create_index_and_post_process(index=self.index):
             create_index()
+            # The metadata must be stored before the index counts as complete because when interrupted after that,
+            # changes to the archive could not be detected for the index, which would be accepted without metadata.
+            callable_store_metadata()
             # Finalize the 'files' table from 'filestmp' and 'parentfolders' so that
             # the by magnitudes costlier checksumming can be interrupted and resumed.
             index.finalize()
-- 
2.43.0


From 43a3894165ab44f5ad97e0b4d4f5437e2105dc0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:25 +0000
Subject: [PATCH 33/65] fix: do not delete databases given to be mounted that
 are not an index

The argument to open it read-only had the wrong name and was ignored. A user's
SQLite database without index tables was deleted when trying to mount it.
---
 core/ratarmountcore/mountsource/SQLiteIndexMountSource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
index c343079..081ad09 100644
--- a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
+++ b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
@@ -79,7 +79,7 @@ class SQLiteIndexMountSource(MountSource):
                 self.indexFilePath = self._temporaryFile.name
 
             # Encoding is only used for set_file_infos, so we are fine not forwarding it.
-            self.index = SQLiteIndex(indexFilePath=self.indexFilePath, indexFolders=[], readOnly=True)
+            self.index = SQLiteIndex(indexFilePath=self.indexFilePath, indexFolders=[], readOnlyIndex=True)
 
         # Initialize members before using checkMetadata because it might to try to use those.
         self.archiveFilePath = self.index.archiveFilePath
-- 
2.43.0


From daf581645711bc355cd1b7a7c48739f7f6c8a205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:36 +0000
Subject: [PATCH 34/65] fix: notice files appended after a recursively mounted
 TAR

The end of the archive was taken to be the end of the last file inside the
nested TAR, so that appended files were not found.
---
 .../ratarmountcore/mountsource/formats/tar.py | 21 ++++++++++++-------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index d5833fc..816b435 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -1144,15 +1144,20 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
         # files right after the the last non-zero block, which might be at offset 512 for empty files.
         # > The user can specify a blocking factor, which is the number of blocks per record.
         # > The default is 20, producing 10 KiB records.
-        result = sqlConnection.execute(
-            "SELECT offset + size, issparse FROM files ORDER BY offset DESC LIMIT 1"
-        ).fetchone()
-        if not result:
-            raise InvalidIndexError("The index contains no files!")
-        pastEndOffset, isSparse = result
-
-        if isSparse:
+        #
+        # The last file by offset might be inside a recursively mounted TAR, which also ends with zero-byte blocks.
+        # Therefore, search for the file that ends last. Ignore the folders that were added for mounted TARs because
+        # their offsets are slightly wrong on purpose, and the sizes of links because they have no data.
+        pastEndOffset = sqlConnection.execute(
+            """SELECT MAX(CASE WHEN linkname == '' THEN offset + size ELSE offset END) FROM files
+               WHERE NOT issparse AND NOT (istar AND (mode & 0xF000) == 0x4000)"""
+        ).fetchone()[0]
+        sparseOffset = sqlConnection.execute("SELECT MAX(offset) FROM files WHERE issparse").fetchone()[0]
+
+        if sparseOffset is not None and (pastEndOffset is None or sparseOffset >= pastEndOffset):
             return None
+        if pastEndOffset is None:
+            raise InvalidIndexError("The index contains no files!")
 
         # Round up to next TAR block
         if pastEndOffset % 512 != 0:
-- 
2.43.0


From d9be101d945ad24f8a4808b55ab7d33c4c7f5821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 35/65] fix: open sparse TAR members without holes

---
 core/ratarmountcore/mountsource/formats/tar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 816b435..5cff212 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -1099,7 +1099,7 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
             if lastEnd < realFileSize:
                 stencils.append((True, 0, realFileSize - lastEnd))
 
-            zeros = cast(IO[bytes], ZeroFile(max(x[2] for x in stencils if x[0])))
+            zeros = cast(IO[bytes], ZeroFile(max((x[2] for x in stencils if x[0]), default=0)))
             return self._open_stencil(
                 [(zeros if is_null else self.tarFileObject, offset, size) for is_null, offset, size in stencils],
                 buffering,
-- 
2.43.0


From bbfcabad13f8e0708c3e35f1ee168dc73a934631 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 36/65] fix: do not read past the end of TAR members

---
 core/ratarmountcore/mountsource/formats/tar.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 5cff212..fcc63e8 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -1107,15 +1107,11 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
 
     @overrides(MountSource)
     def read(self, fileInfo: FileInfo, size: int, offset: int) -> bytes:
-        tarFileInfo = SQLiteIndex.get_index_userdata(fileInfo.userdata)
-        if tarFileInfo.issparse:
-            with self.open(fileInfo) as file:
-                file.seek(offset, os.SEEK_SET)
-                return file.read(size)
-
-        # For non-sparse files, we can simply seek to the offset and read from it.
-        self.tarFileObject.seek(tarFileInfo.offset + offset, os.SEEK_SET)
-        return self.tarFileObject.read(size)
+        # Do not read directly from tarFileObject because it might contain further data after the requested file
+        # and because the access must be synchronized with other opened files.
+        with self.open(fileInfo, buffering=0) as file:
+            file.seek(offset, os.SEEK_SET)
+            return file.read(size)
 
     @overrides(MountSource)
     def statfs(self) -> dict[str, Any]:
-- 
2.43.0


From cccf036463cc65e54189f9b704e813dae294c0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:56 +0000
Subject: [PATCH 37/65] fix: show block devices in TAR archives as such

---
 core/ratarmountcore/mountsource/formats/tar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index fcc63e8..fd42141 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -145,6 +145,7 @@ class _TarFileMetadataReader:
             | ( stat.S_IFREG if tarInfo.isfile() or tarInfo.type == b'D' else 0 )
             | ( stat.S_IFLNK if tarInfo.issym () else 0 )
             | ( stat.S_IFCHR if tarInfo.ischr () else 0 )
+            | ( stat.S_IFBLK if tarInfo.isblk () else 0 )
             | ( stat.S_IFIFO if tarInfo.isfifo() else 0 )
         )
         # fmt: on
-- 
2.43.0


From d0bc79b43df7066f6542df894c428f901947b6a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:45 +0000
Subject: [PATCH 38/65] fix: do not show other files inside TARs that end with
 .tar as empty folders

---
 .../ratarmountcore/mountsource/formats/tar.py | 24 +++++++++++--------
 1 file changed, 14 insertions(+), 10 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index fd42141..ec73f33 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -368,7 +368,7 @@ class _TarFileMetadataReader:
     def _open_tar(self, fileObject: IO[bytes]):
         """
         Opens the fileObject with the appropriate settings using the tarfile module.
-        Instead of throwing, an empty iterable might be returned.
+        Instead of throwing for the outermost file, an empty iterable might be returned.
         """
 
         if not self._parent.isTar:
@@ -386,21 +386,20 @@ class _TarFileMetadataReader:
             )
             # fmt: on
         except tarfile.ReadError:
-            pass
+            # The caller has to notice when a file inside the archive is not a TAR even though it is named like one.
+            if self._recursionDepth > self._parent._recursionDepth + 1:
+                raise
 
         return []
 
-    def _process_serial(self, fileObject: IO[bytes], pathPrefix: str, streamOffset: int) -> Iterable[tuple]:
+    def _process_serial(
+        self, loadedTarFile: Any, fileObject: IO[bytes], pathPrefix: str, streamOffset: int
+    ) -> Iterable[tuple]:
         """
-        Opens the given fileObject using the tarfile module, iterates over all files converting their metadata to
+        Iterates over all files in the given opened TAR converting their metadata to
         FileInfo tuples and inserting those into the database in a chunked manner using the given _set_file_infos.
         """
 
-        if self._recursionDepth > self._parent.maxRecursionDepth:
-            return []
-
-        loadedTarFile: Any = self._open_tar(fileObject)
-
         # Iterate over files inside TAR and add them to the database
         fileInfos: list[tuple] = []
         xattrs: list[tuple] = []
@@ -484,8 +483,13 @@ class _TarFileMetadataReader:
         A list of files which might be of interest for recursive mounting of uncompressed TARs is returned.
         """
 
+        if self._recursionDepth > self._parent.maxRecursionDepth:
+            return []
+
+        loadedTarFile = self._open_tar(fileObject)
+
         try:
-            return self._process_serial(fileObject, pathPrefix, streamOffset)
+            return self._process_serial(loadedTarFile, fileObject, pathPrefix, streamOffset)
 
         except tarfile.ReadError as e:
             if 'unexpected end of data' in str(e):
-- 
2.43.0


From 07b1758caade3c2a5ef6798d50cf128b634d41dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 39/65] fix: look up long names in AR archives by their
 position in the table

---
 core/ratarmountcore/mountsource/formats/ar.py | 30 +++++--------------
 1 file changed, 8 insertions(+), 22 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/ar.py b/core/ratarmountcore/mountsource/formats/ar.py
index 6e4e8a4..d7b5fa6 100644
--- a/core/ratarmountcore/mountsource/formats/ar.py
+++ b/core/ratarmountcore/mountsource/formats/ar.py
@@ -72,9 +72,8 @@ def _parse_ar_archive(fileObject: IO[bytes]) -> list[tarfile.TarInfo]:
     POSIX_SYMBOL_TABLE_NAME = b'/'
     GNU_INDEX_NAME = b'//'
     BSD_LONG_NAME_PREFIX = b'#1/'
-    # For thin archives, it simply is bytes because for some reason thin archives use byte indexes while
-    # normal archives index by file name entry.
-    long_names: Optional[Union[bytes, list[bytes]]] = None
+    # Long names are referred to by their byte offset in this table.
+    long_names: bytes = b''
 
     # It could be argued that the special 'debian-binary' text file could be ignored because it should be
     # interpreted as some kind of magic bytes, but I am not fully convinced of that. Simply also display
@@ -83,14 +82,10 @@ def _parse_ar_archive(fileObject: IO[bytes]) -> list[tarfile.TarInfo]:
     def get_long_file_name(name: bytes):
         if long_names and name.startswith(b'/') and name[1:].isdigit():
             index = int(name[1:])
-            if index >= 0 and index < len(long_names):
-                if not is_thin:
-                    return long_names[index]
-
-                if isinstance(long_names, bytes):  # Should always be the case for is_thin.
-                    end = long_names.find(b'/\n', index)
-                    if end >= index:
-                        return long_names[index:end]
+            if index < len(long_names):
+                # LLVM terminates the names with null bytes when using the COFF format.
+                match = re.compile(b'/\n|\0').search(long_names, index)
+                return long_names[index : match.start() if match else len(long_names)]
         return name
 
     while header_data := fileObject.read(HEADER_SIZE):
@@ -138,17 +133,8 @@ def _parse_ar_archive(fileObject: IO[bytes]) -> list[tarfile.TarInfo]:
             continue
 
         if name == GNU_INDEX_NAME:
-            if is_thin:
-                long_names = fileObject.read(size)
-            else:
-                long_names = fileObject.read(size).split(b'/\n')
-
-                # GNU ar pads the table internally to an even size.
-                if size % 2 == 0:
-                    if long_names and long_names[-1] in (b'\x60', b'\x0a'):
-                        long_names.pop()
-                else:
-                    fileObject.seek(size % 2, io.SEEK_CUR)  # Skip padding
+            long_names = fileObject.read(size)
+            fileObject.seek(size % 2, io.SEEK_CUR)  # Skip padding
 
             # Retroactively apply the index if it is not the very first entry in the archive.
             for file in files:
-- 
2.43.0


From afd3a86d25f09e8e15d80496a38e0410f3b442f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:41 +0000
Subject: [PATCH 40/65] fix: skip symbol tables of large AR archives

---
 core/ratarmountcore/mountsource/formats/ar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/ar.py b/core/ratarmountcore/mountsource/formats/ar.py
index d7b5fa6..dcb0667 100644
--- a/core/ratarmountcore/mountsource/formats/ar.py
+++ b/core/ratarmountcore/mountsource/formats/ar.py
@@ -69,7 +69,7 @@ def _parse_ar_archive(fileObject: IO[bytes]) -> list[tarfile.TarInfo]:
     # 58     |  2     | Ending characters                        | 0x60 0x0A
     # https://en.wikipedia.org/wiki/Ar_(Unix)
     HEADER_SIZE = 60
-    POSIX_SYMBOL_TABLE_NAME = b'/'
+    POSIX_SYMBOL_TABLE_NAMES = (b'/', b'/SYM64/')
     GNU_INDEX_NAME = b'//'
     BSD_LONG_NAME_PREFIX = b'#1/'
     # Long names are referred to by their byte offset in this table.
@@ -127,7 +127,7 @@ def _parse_ar_archive(fileObject: IO[bytes]) -> list[tarfile.TarInfo]:
 
         size = tar_info.size  # Includes the BSD long name for correct even-byte padding.
 
-        if name == POSIX_SYMBOL_TABLE_NAME:
+        if name in POSIX_SYMBOL_TABLE_NAMES:
             # Ignore the symbol table for now.
             fileObject.seek(size + size % 2, io.SEEK_CUR)
             continue
-- 
2.43.0


From 3f7bb8320c34a233bb3d85464aa60d8b0e7fe565 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:22:38 +0000
Subject: [PATCH 41/65] fix: commit symbolic links to folders in the write
 overlay

---
 ratarmount/WriteOverlay.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index f196d1d..af3a1fc 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -611,7 +611,10 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
         if not writeOverlayWithTrailingSlash.endswith('/'):
             writeOverlayWithTrailingSlash += '/'
 
-        for dirpath, _, filenames in os.walk(writeOverlay, topdown=False):
+        for dirpath, dirnames, filenames in os.walk(writeOverlay, topdown=False):
+            # os.walk lists symbolic links to folders among the folders but does not follow them.
+            filenames = filenames + [name for name in dirnames if os.path.islink(os.path.join(dirpath, name))]
+
             # dirpath should be a relative path (without leading slash) as seen from the overlay folder
             if dirpath.startswith(writeOverlayWithTrailingSlash):
                 dirpath = dirpath[len(writeOverlayWithTrailingSlash) :]
-- 
2.43.0


From c448e707f25e110386407fd3d192097c3c8e566a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:50 +0000
Subject: [PATCH 42/65] fix: do not show the attributes of members on implicit
 parent folders

---
 core/ratarmountcore/SQLiteIndex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 9668e8c..9abce63 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -717,7 +717,7 @@ class SQLiteIndex:
                 /* path name offsetheader offset size mtime mode type */
                 SELECT path,name,offsetheader,offset,0,0,{int(0o555 | stat.S_IFDIR)},{int(tarfile.DIRTYPE)},
                        /* linkname uid gid istar issparse isgenerated recursiondepth */
-                       '',0,0,0,0,0,0
+                       '',0,0,0,0,1,0
                 FROM "parentfolders"
                 WHERE {searchByTuple if _get_libsqlite_version() >= (3, 22, 0) else searchByConcat}
                     FROM "files" WHERE mode & (1 << 14) != 0
-- 
2.43.0


From bc10263dc301b825270e3a02834243762a0ba003 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:30 +0000
Subject: [PATCH 43/65] fix: list empty folders of indexed archives as empty
 instead of missing

---
 core/ratarmountcore/SQLiteIndex.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 9abce63..a91b655 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -901,7 +901,11 @@ class SQLiteIndex:
 
         gotResults = bool(directory)
         directory.pop('', None)
-        return directory if gotResults else None
+        return directory if gotResults or self._is_dir(path) else None
+
+    def _is_dir(self, path: str) -> bool:
+        fileInfo = self.lookup(path)
+        return fileInfo is not None and stat.S_ISDIR(fileInfo.mode)
 
     def list_mode(self, path: str) -> Optional[dict[str, int]]:
         """
@@ -924,7 +928,7 @@ class SQLiteIndex:
         directory = {row[0]: row[1] for row in rows}
         gotResults = bool(directory)
         directory.pop('', None)
-        return directory if gotResults else None
+        return directory if gotResults or self._is_dir(path) else None
 
     def versions(self, path: str) -> dict[str, FileInfo]:
         """
-- 
2.43.0


From ef2179f6c2dade7bb18398ee30260947c692ede6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:21 +0000
Subject: [PATCH 44/65] fix: make file infos listed by unions and subvolumes
 usable

---
 .../mountsource/compositing/subvolumes.py           | 13 +++++++++++--
 .../ratarmountcore/mountsource/compositing/union.py |  5 +++++
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/subvolumes.py b/core/ratarmountcore/mountsource/compositing/subvolumes.py
index f3b4672..4501570 100644
--- a/core/ratarmountcore/mountsource/compositing/subvolumes.py
+++ b/core/ratarmountcore/mountsource/compositing/subvolumes.py
@@ -171,11 +171,20 @@ class SubvolumesMountSource(MountSource):
         if result is None:
             return None
 
-        _subvolume, subpath, mounted = result
+        subvolume, subpath, mounted = result
         if not isinstance(mounted, MountSource):
             return {name: self.rootFileInfo.mode if onlyMode else self.rootFileInfo.clone() for name in mounted}
 
-        return mounted.list_mode(subpath) if onlyMode else mounted.list(subpath)
+        if onlyMode:
+            return mounted.list_mode(subpath)
+
+        files = mounted.list(subpath)
+        if isinstance(files, dict):
+            # As for lookup, the subvolume is required for using the file infos, e.g., with open.
+            files = {name: fileInfo.clone() for name, fileInfo in files.items()}
+            for fileInfo in files.values():
+                fileInfo.userdata.append(subvolume)
+        return files
 
     @overrides(MountSource)
     def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
diff --git a/core/ratarmountcore/mountsource/compositing/union.py b/core/ratarmountcore/mountsource/compositing/union.py
index 10d565d..fbfc818 100644
--- a/core/ratarmountcore/mountsource/compositing/union.py
+++ b/core/ratarmountcore/mountsource/compositing/union.py
@@ -155,6 +155,11 @@ class UnionMountSource(MountSource):
         # The rightmost mount source has the highest precedence, i.e., it must be the last one to update the metadata.
         for mountSource in self.mountSources:
             result = mountSource.list_mode(path) if onlyMode else mountSource.list(path)
+            if isinstance(result, dict) and not onlyMode:
+                # As for lookup, the mount source is required for using the file infos, e.g., with open.
+                result = {name: fileInfo.clone() for name, fileInfo in result.items()}
+                for fileInfo in result.values():
+                    fileInfo.userdata.append(mountSource)
 
             if files is None:
                 if isinstance(result, dict):
-- 
2.43.0


From 07e2b23203a70deed372f493cd9fab2f65470dfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:28 +0000
Subject: [PATCH 45/65] fix: use existing indexes as they are when modifying
 them is disabled

---
 core/ratarmountcore/SQLiteIndex.py                        | 8 ++++++++
 core/ratarmountcore/mountsource/SQLiteIndexMountSource.py | 5 +++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index a91b655..a9b360d 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -1456,6 +1456,10 @@ class SQLiteIndex:
             else:
                 logger.info("The index does not yet contain %s block offset data. Will write it out.", compression.name)
 
+            if self.readOnly:
+                logger.warning("Cannot store block offsets in the read-only index. Subsequent loads might be slow.")
+                return
+
             tables = get_sqlite_tables(db)
             if table_name in tables:
                 db.execute(f"DROP TABLE {table_name}")
@@ -1472,6 +1476,10 @@ class SQLiteIndex:
             if self._load_gzip_index(fileObject):
                 return
 
+            if self.readOnly:
+                logger.warning("Cannot store block offsets in the read-only index. Subsequent loads might be slow.")
+                return
+
             logger.info("The index does not yet contain gzip block offset data. Will write it out.")
 
             self._store_gzip_index(fileObject)
diff --git a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
index 081ad09..0294fcc 100644
--- a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
+++ b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
@@ -220,8 +220,9 @@ class SQLiteIndexMountSource(MountSource):
             # index_is_loaded checks for completed 'files' (stats etc.) table.
             # It does not check regarding xattrs completenes. We need to check whether some hashes
             # should still be computed.
-            self._compute_and_store_hashes()
-            callable_store_metadata()
+            if not self.index.readOnly:
+                self._compute_and_store_hashes()
+                callable_store_metadata()
             self.index.reload_index_read_only()
             return
 
-- 
2.43.0


From f0babfc41a397ed086cb6827357fd30aaa7f6da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:22 +0000
Subject: [PATCH 46/65] fix: mount with indexes to which compression offsets
 cannot be added

---
 core/ratarmountcore/mountsource/formats/tar.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index ec73f33..f2065c6 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -693,7 +693,14 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
 
         if self.index.index_is_loaded():
             if not self.hasBeenAppendedTo:  # indirectly set by a successful call to _try_load_index
-                self._load_or_store_compression_offsets()  # load
+                try:
+                    self._load_or_store_compression_offsets()  # load
+                except sqlite3.OperationalError as exception:
+                    # The offsets only speed up things. The index is usable without them, e.g., from read-only storage.
+                    logger.warning("Could not add the compression offsets to the existing index: %s", exception)
+                    # Incomplete offsets must not be loaded next time.
+                    with contextlib.suppress(sqlite3.OperationalError):
+                        self.index.clear_compression_offsets()
                 self.index.reload_index_read_only()
                 return
 
-- 
2.43.0


From 8413ebe28a7f7c22fd5eef101f1a291b9657e429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:05 +0000
Subject: [PATCH 47/65] fix: rebuild empty tables of compression offsets

---
 core/ratarmountcore/SQLiteIndex.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index a9b360d..4aafbf6 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -1444,6 +1444,8 @@ class SQLiteIndex:
             if table_name in tables:
                 try:
                     offsets = dict(db.execute(f"SELECT blockoffset,dataoffset FROM {table_name};"))
+                    if not offsets:
+                        raise ValueError("Storing the block offsets has probably been interrupted.")
                     setBlockOffsets(offsets)
                     return
                 except Exception as exception:
-- 
2.43.0


From ac84ddaf05237c508581827a75bd1c8c2ad4572b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 48/65] fix: list and strip paths correctly in the fsspec
 interface

---
 core/ratarmountcore/SQLiteIndexedTarFsspec.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndexedTarFsspec.py b/core/ratarmountcore/SQLiteIndexedTarFsspec.py
index 21b203e..0bb8366 100644
--- a/core/ratarmountcore/SQLiteIndexedTarFsspec.py
+++ b/core/ratarmountcore/SQLiteIndexedTarFsspec.py
@@ -20,7 +20,7 @@ class MountSourceFileSystem(fsspec.spec.AbstractFileSystem):
 
     @classmethod
     def _stripProtocol(cls, path):  # noqa # Overwrites fsspec.spec.AbstractFileSystem._stripProtocol!
-        return path[-len(cls.protocol) - 3] if path.startswith(cls.protocol + '://') else path
+        return path[len(cls.protocol) + 3 :] if path.startswith(cls.protocol + '://') else path
 
     @staticmethod
     def _file_info_to_dict(name, fileInfo):
@@ -41,16 +41,17 @@ class MountSourceFileSystem(fsspec.spec.AbstractFileSystem):
         # > - type of entry, “file”, “directory” or other
         # How can something with "spec" in its name not be fully specified ... But the returned paths have to be
         # a full path.
+        strippedPath = self._stripProtocol(path)
+
         def prefix_path(name):
-            return f"{path.rstrip('/')}/{name}" if path else name
+            return f"{strippedPath.rstrip('/')}/{name}" if strippedPath else name
 
-        strippedPath = self._stripProtocol(path)
         if detail:
             result = self.mountSource.list(strippedPath)
             if result is None:
                 raise FileNotFoundError(path)
             if not isinstance(result, dict):
-                result = {prefix_path(name): self.mountSource.lookup(name) for name in result}
+                result = {name: self.mountSource.lookup(prefix_path(name)) for name in result}
             return [
                 self._file_info_to_dict(prefix_path(name), info) for name, info in result.items() if info is not None
             ]
@@ -67,7 +68,7 @@ class MountSourceFileSystem(fsspec.spec.AbstractFileSystem):
         result = self.mountSource.lookup(self._stripProtocol(path))
         if result is None:
             raise FileNotFoundError(path)
-        return self._file_info_to_dict(path, result)
+        return self._file_info_to_dict(self._stripProtocol(path), result)
 
     @overrides(fsspec.spec.AbstractFileSystem)
     def _open(
-- 
2.43.0


From 07f4924db5ac92e0bbd73410af9bd6e46d9261d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:48:27 +0000
Subject: [PATCH 49/65] fix: report missing files of remote file systems as
 missing

---
 core/ratarmountcore/mountsource/formats/fsspec.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/fsspec.py b/core/ratarmountcore/mountsource/formats/fsspec.py
index 1cb7eb2..693d585 100644
--- a/core/ratarmountcore/mountsource/formats/fsspec.py
+++ b/core/ratarmountcore/mountsource/formats/fsspec.py
@@ -174,7 +174,10 @@ class FSSpecMountSource(MountSource):
             # On the other hand, all paths must start with / or else they will not be found...
             path = ""
 
-        result = self.fileSystem.listdir(path, detail=True)
+        try:
+            result = self.fileSystem.listdir(path, detail=True)
+        except (FileNotFoundError, NotADirectoryError):
+            return None
         if not result:
             return []
         if isinstance(result[0], str):
@@ -305,10 +308,6 @@ class FSSpecMountSource(MountSource):
             return None
         return FSSpecMountSource._convert_to_file_info(self.fileSystem.info(path), path)
 
-    @overrides(MountSource)
-    def versions(self, path: str) -> int:
-        return 1
-
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
         path = fileInfo.userdata[-1]
-- 
2.43.0


From 6503ed3aac31b7f893f0a0482ee1ba1ea2a09150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:13:01 +0000
Subject: [PATCH 50/65] fix: recognize GNU incremental archives that start with
 links

---
 core/ratarmountcore/mountsource/formats/tar.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index f2065c6..89fe96d 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -361,8 +361,8 @@ class _TarFileMetadataReader:
             # x: Extended header with meta data for the next file in the archive (POSIX.1-2001)
             # X: Solaris extended header
             # g: Extended global header (POSIX.1-2001)
-            # 0: Normal file.
-            if type_flag != b'0':
+            # All others, e.g., links and folders, are complete and must not hide the type of the next file.
+            if type_flag in (b'K', b'L', b'x', b'X', b'g'):
                 skip_next_blocks += 1
 
     def _open_tar(self, fileObject: IO[bytes]):
-- 
2.43.0


From 602a80c43bcb19f60a775133ba43245fddebf2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:41 +0000
Subject: [PATCH 51/65] fix: list files named like the overlay database in
 other folders

---
 ratarmount/WriteOverlay.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index af3a1fc..8e5172e 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -225,9 +225,12 @@ class WritableFolderMountSource(fuse.Operations):
             'SELECT name FROM "files" WHERE path == (?) AND deleted == 1', (path.rstrip('/'),)
         )
 
-        # For temporary SQLite file suffixes, see https://www.sqlite.org/tempfiles.html
-        suffixes = ['', '-journal', '-shm', '-wal']
-        return [x[0] for x in result] + [self.hiddenDatabaseName + suffix for suffix in suffixes]
+        deleted = [x[0] for x in result]
+        if not path.strip('/'):
+            # Hide the database, which only exists in the root folder of the overlay.
+            # For temporary SQLite file suffixes, see https://www.sqlite.org/tempfiles.html
+            deleted += [self.hiddenDatabaseName + suffix for suffix in ('', '-journal', '-shm', '-wal')]
+        return deleted
 
     def is_deleted(self, path: str) -> bool:
         folder, name = self._split_path(path)
-- 
2.43.0


From 077102584c95455cd693e2b20d788e9f96d05875 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:23 +0000
Subject: [PATCH 52/65] fix: complete the checksums of loaded TAR indexes

---
 core/ratarmountcore/mountsource/formats/tar.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 89fe96d..ea51032 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -701,6 +701,11 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                     # Incomplete offsets must not be loaded next time.
                     with contextlib.suppress(sqlite3.OperationalError):
                         self.index.clear_compression_offsets()
+                if not self.index.readOnly:
+                    try:
+                        self._compute_and_store_hashes()  # might have been interrupted or not been requested before
+                    except sqlite3.OperationalError as exception:
+                        logger.warning("Could not add the missing checksums to the existing index: %s", exception)
                 self.index.reload_index_read_only()
                 return
 
@@ -727,6 +732,7 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
 
                 self.index.drop_metadata()
                 self._store_metadata()
+                self._compute_and_store_hashes()
                 self.index.reload_index_read_only()
                 return
 
-- 
2.43.0


From a783567de3d27e8ef118c9846b9e9da0309f3da2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:18 +0000
Subject: [PATCH 53/65] fix: keep the file handle usable when the file cannot
 be copied into the overlay

---
 ratarmount/FuseMount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 1f16e7f..2b7ab7a 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -872,8 +872,8 @@ class FuseMount(fuse.Operations):
                 return openedFile.write(data)
 
             if self.writeOverlay and not isinstance(openedFile, int) and (flags & (os.O_WRONLY | os.O_RDWR)):
-                openedFile.close()
                 self.openedFiles[fh] = (flags, self.writeOverlay.open(path, flags))
+                openedFile.close()
 
         if self.writeOverlay and self._is_write_overlay_handle(fh):
             return self.writeOverlay.write(path, data, offset, self._resolve_file_handle(fh))
-- 
2.43.0


From f830af22ddb6e20f8f03a84510d58fdb5852445d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:28 +0000
Subject: [PATCH 54/65] fix: show files copied into the overlay only when they
 are complete

---
 ratarmount/WriteOverlay.py | 37 +++++++++++++++++++++++--------------
 1 file changed, 23 insertions(+), 14 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 8e5172e..72eff44 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -1,3 +1,4 @@
+import contextlib
 import errno
 import functools
 import os
@@ -67,6 +68,7 @@ class WritableFolderMountSource(fuse.Operations):
     """
 
     hiddenDatabaseName = '.ratarmount.overlay.sqlite'
+    temporaryFileName = hiddenDatabaseName + '-copy'
 
     def __init__(self, path: str, mountSource: MountSource, ignoredPrefixes: Optional[list[str]] = None) -> None:
         if os.path.lexists(path):
@@ -180,11 +182,24 @@ class WritableFolderMountSource(fuse.Operations):
 
         self._ensure_parent_exists(path)
         self._keep_permissions(path)
-        with (
-            self.mountSource.open(self.mountSource.lookup(path)) as sourceObject,
-            open(self._realpath(path), 'wb') as targetObject,
-        ):
-            shutil.copyfileobj(sourceObject, targetObject)
+        self._copy_to_overlay(self.mountSource.lookup(path), path)
+
+    def _copy_to_overlay(self, fileInfo: FileInfo, path: str):
+        """Copies a file or link to the given path, which is only changed after the copy has been completed."""
+        temporaryPath = self._realpath(self.temporaryFileName)
+        try:
+            if os.path.lexists(temporaryPath):
+                os.unlink(temporaryPath)  # Can only exist when a former copy has been interrupted.
+            if stat.S_ISLNK(fileInfo.mode):
+                os.symlink(fileInfo.linkname, temporaryPath)
+            else:
+                with self.mountSource.open(fileInfo) as sourceObject, open(temporaryPath, 'wb') as targetObject:
+                    shutil.copyfileobj(sourceObject, targetObject)
+            os.replace(temporaryPath, self._realpath(path))
+        except BaseException:
+            with contextlib.suppress(OSError):
+                os.unlink(temporaryPath)
+            raise
 
     def _open(self, path: str, mode):
         self._ensure_parent_exists(path)
@@ -229,7 +244,7 @@ class WritableFolderMountSource(fuse.Operations):
         if not path.strip('/'):
             # Hide the database, which only exists in the root folder of the overlay.
             # For temporary SQLite file suffixes, see https://www.sqlite.org/tempfiles.html
-            deleted += [self.hiddenDatabaseName + suffix for suffix in ('', '-journal', '-shm', '-wal')]
+            deleted += [self.hiddenDatabaseName + suffix for suffix in ('', '-journal', '-shm', '-wal', '-copy')]
         return deleted
 
     def is_deleted(self, path: str) -> bool:
@@ -391,13 +406,7 @@ class WritableFolderMountSource(fuse.Operations):
         if isInOverlay:
             os.rename(self._realpath(old), self._realpath(new))
         else:
-            if os.path.lexists(self._realpath(new)):
-                os.unlink(self._realpath(new))
-            if stat.S_ISLNK(fileInfo.mode):
-                os.symlink(fileInfo.linkname, self._realpath(new))
-            else:
-                with self.mountSource.open(fileInfo) as sourceObject, open(self._realpath(new), 'wb') as targetObject:
-                    shutil.copyfileobj(sourceObject, targetObject)
+            self._copy_to_overlay(fileInfo, new)
 
         for oldPath in oldPaths:
             newPath = new + oldPath[len(old) :]
@@ -607,7 +616,7 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
         open(appendList, 'a', encoding=encoding) as appendListFile,
     ):
         # For temporary SQLite file suffixes, see https://www.sqlite.org/tempfiles.html
-        suffixes = ['', '-journal', '-shm', '-wal']
+        suffixes = ['', '-journal', '-shm', '-wal', '-copy']
         toBeIgnored = [WritableFolderMountSource.hiddenDatabaseName + suffix for suffix in suffixes]
 
         writeOverlayWithTrailingSlash = writeOverlay
-- 
2.43.0


From a21ca0ed9364f7699964ef5b99cbe4fb7ad59764 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:29 +0000
Subject: [PATCH 55/65] fix: do not show removed files again when creating
 something fails

---
 ratarmount/WriteOverlay.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 72eff44..4a7afcb 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -201,8 +201,8 @@ class WritableFolderMountSource(fuse.Operations):
                 os.unlink(temporaryPath)
             raise
 
-    def _open(self, path: str, mode):
-        self._ensure_parent_exists(path)
+    def _register_created(self, path: str, mode):
+        """Makes a newly created file or folder visible. Must only be called after it has been created."""
         folder, name = self._split_path(path)
 
         self.sqlConnection.execute(
@@ -458,8 +458,9 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def mkdir(self, path: str, mode: int):
-        self._open(path, mode | stat.S_IFDIR)
+        self._ensure_parent_exists(path)
         os.mkdir(self._realpath(path), mode)
+        self._register_created(path, mode | stat.S_IFDIR)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
@@ -504,11 +505,13 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def create(self, path: str, mode: int, fi=None):
-        self._open(path, mode)
+        self._ensure_parent_exists(path)
         # TODO Use the correct flags according after fixing argument forwarding in mfusepy.
         #      https://github.com/mxmlnkn/ratarmount/issues/172#issuecomment-3312526348
         # I see no downside to always adding read-mode by default, until then.
-        return os.open(self._realpath(path), os.O_RDWR | os.O_CREAT | os.O_TRUNC, mode)
+        result = os.open(self._realpath(path), os.O_RDWR | os.O_CREAT | os.O_TRUNC, mode)
+        self._register_created(path, mode)
+        return result
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
-- 
2.43.0


From 4d0bf119a15130f99a386f509a652cc25b5d2896 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:29 +0000
Subject: [PATCH 56/65] fix: keep files and their metadata when removing them
 fails

---
 ratarmount/WriteOverlay.py | 36 ++++++++++++++++++++----------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 4a7afcb..03b97fa 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -234,6 +234,24 @@ class WritableFolderMountSource(fuse.Operations):
         else:
             self.sqlConnection.execute('DELETE FROM "files" WHERE (path,name) == (?,?)', (folder, name))
 
+    def _remove(self, path: str, removeFromOverlay: Callable[[str], None]):
+        """Hides the given path and removes it from the overlay. Nothing is changed if it cannot be removed."""
+        columns = self.sqlConnection.execute(
+            'SELECT * FROM "files" WHERE (path,name) == (?,?)', self._split_path(path)
+        ).fetchone()
+        # Hide it first so that an older version does not reappear when interrupted after the removal.
+        self._mark_as_deleted(path)
+        try:
+            if os.path.lexists(self._realpath(path)):
+                removeFromOverlay(self._realpath(path))
+        except Exception as exception:
+            traceback.print_exc()
+            self._clear_metadata(path)
+            if columns is not None:
+                self.sqlConnection.execute(f'INSERT INTO "files" VALUES ({",".join(["?"] * 7)})', tuple(columns))
+            raise fuse.FuseOSError(errno.EIO) from exception
+        self._mark_as_deleted(path)  # There might be nothing left to be hidden.
+
     def list_deleted(self, path: str) -> list[str]:
         """Return list of files marked as deleted in the given path."""
         result = self.sqlConnection.execute(
@@ -474,14 +492,7 @@ class WritableFolderMountSource(fuse.Operations):
             if set(keys) - set(self.list_deleted(path)):
                 raise fuse.FuseOSError(errno.ENOTEMPTY)
 
-        try:
-            if os.path.exists(self._realpath(path)):
-                os.rmdir(self._realpath(path))
-        except Exception as exception:
-            traceback.print_exc()
-            raise fuse.FuseOSError(errno.EIO) from exception
-        finally:
-            self._mark_as_deleted(path)
+        self._remove(path, os.rmdir)
 
     # Files
 
@@ -523,14 +534,7 @@ class WritableFolderMountSource(fuse.Operations):
             self._mark_as_deleted(path)
             raise fuse.FuseOSError(errno.ENOENT)
 
-        try:
-            if os.path.lexists(self._realpath(path)):
-                os.unlink(self._realpath(path))
-        except Exception as exception:
-            traceback.print_exc()
-            raise fuse.FuseOSError(errno.EIO) from exception
-        finally:
-            self._mark_as_deleted(path)
+        self._remove(path, os.unlink)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
-- 
2.43.0


From 955070049f872ffbd00bc437d0a0fe0542b905c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:53 +0000
Subject: [PATCH 57/65] fix: do not let users see, replace or remove the
 database of the write overlay

---
 ratarmount/WriteOverlay.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 03b97fa..4c12b29 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -150,8 +150,17 @@ class WritableFolderMountSource(fuse.Operations):
         assert len(result) == 2
         return result[0], result[1]
 
+    def _is_hidden(self, path: str) -> bool:
+        """Whether it is the path of the database, which only exists in the root folder of the overlay."""
+        # For temporary SQLite file suffixes, see https://www.sqlite.org/tempfiles.html
+        folder, name = self._split_path(path)
+        suffixes = ('', '-journal', '-shm', '-wal', '-copy')
+        return not folder and name in [self.hiddenDatabaseName + suffix for suffix in suffixes]
+
     def _realpath(self, path: str) -> str:
         """Path given relative to folder root. Leading '/' is acceptable"""
+        if self._is_hidden(path):
+            raise fuse.FuseOSError(errno.EPERM)
         return os.path.join(self.root, path.lstrip(os.path.sep))
 
     def _ensure_parent_exists(self, path):
@@ -186,7 +195,7 @@ class WritableFolderMountSource(fuse.Operations):
 
     def _copy_to_overlay(self, fileInfo: FileInfo, path: str):
         """Copies a file or link to the given path, which is only changed after the copy has been completed."""
-        temporaryPath = self._realpath(self.temporaryFileName)
+        temporaryPath = os.path.join(self.root, self.temporaryFileName)
         try:
             if os.path.lexists(temporaryPath):
                 os.unlink(temporaryPath)  # Can only exist when a former copy has been interrupted.
@@ -266,6 +275,8 @@ class WritableFolderMountSource(fuse.Operations):
         return deleted
 
     def is_deleted(self, path: str) -> bool:
+        if self._is_hidden(path):
+            return True
         folder, name = self._split_path(path)
         result = self.sqlConnection.execute(
             'SELECT COUNT(*) > 0 FROM "files" WHERE path == (?) AND name == (?) AND deleted == 1', (folder, name)
-- 
2.43.0


From dd020456a4bdeaadea81df9b715d54bc8eea1ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:01 +0000
Subject: [PATCH 58/65] fix: list folders in RAR archives as folders and find
 file versions starting from 1

---
 .../ratarmountcore/mountsource/formats/rar.py | 67 +++++++++----------
 1 file changed, 32 insertions(+), 35 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/rar.py b/core/ratarmountcore/mountsource/formats/rar.py
index 2c54b45..806a1b5 100644
--- a/core/ratarmountcore/mountsource/formats/rar.py
+++ b/core/ratarmountcore/mountsource/formats/rar.py
@@ -135,31 +135,38 @@ class RarMountSource(MountSource):
 
         return filePath
 
-    @overrides(MountSource)
-    def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
-        path = path.strip('/')
-        if path:
-            path += '/'
-
-        # The "filename" member is wrongly named as it returns the full path inside the archive not just the name part.
-        return {
-            self._get_name(path, normalizedPath): self._convert_to_file_info(normalizedPath, info)
-            for normalizedPath, info in self.files.items()
-            if self._get_name(path, normalizedPath)
-        }
+    @staticmethod
+    def _create_folder_info() -> FileInfo:
+        """File info for parent folders of files that do not exist as separate entities in the archive."""
+        # fmt: off
+        return FileInfo(
+            size     = 0,
+            mtime    = time.time(),
+            mode     = 0o777 | stat.S_IFDIR,
+            linkname = "",
+            uid      = get_userid(),
+            gid      = get_groupid(),
+            userdata = [None],
+        )
+        # fmt: on
 
     @overrides(MountSource)
-    def list_mode(self, path: str) -> Optional[Union[Iterable[str], dict[str, int]]]:
-        path = path.strip('/')
-        if path:
-            path += '/'
+    def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
+        folder = path.strip('/')
+        if folder:
+            folder += '/'
 
         # The "filename" member is wrongly named as it returns the full path inside the archive not just the name part.
-        return {
-            self._get_name(path, normalizedPath): RarMountSource._get_mode(info)
-            for normalizedPath, info in self.files.items()
-            if self._get_name(path, normalizedPath)
-        }
+        result: dict[str, FileInfo] = {}
+        for normalizedPath, info in self.files.items():
+            name = self._get_name(folder, normalizedPath)
+            if not name:
+                continue
+            if normalizedPath.rstrip('/') == folder + name:
+                result[name] = self._convert_to_file_info(normalizedPath, info)
+            elif name not in result:
+                result[name] = self._create_folder_info()
+        return result if result or self.is_dir(path) else None
 
     def _lookups(self, path: str) -> builtins.list[FileInfo]:
         # If we have a fileInfo for the given directory path, then everything is fine.
@@ -177,26 +184,16 @@ class RarMountSource(MountSource):
         if not any(info.userdata[-1][0] == pathAsDir for info in infoList) and any(
             normalizedPath.rstrip('/').startswith(pathAsDir) for normalizedPath, info in self.files.items()
         ):
-            # fmt: off
-            infoList.append(
-                FileInfo(
-                    size     = 0,
-                    mtime    = time.time(),
-                    mode     = 0o777 | stat.S_IFDIR,
-                    linkname = "",
-                    uid      = get_userid(),
-                    gid      = get_groupid(),
-                    userdata = [None],
-                )
-            )
-            # fmt: on
+            infoList.insert(0, self._create_folder_info())
 
         return infoList
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
         infos = self._lookups(path)
-        return infos[fileVersion] if -len(infos) <= fileVersion < len(infos) else None
+        # Version 1 is the oldest one, 0 the most recent one, and negative versions count back from the most recent one.
+        index = fileVersion - 1 if fileVersion > 0 else len(infos) - 1 + fileVersion
+        return infos[index] if 0 <= index < len(infos) else None
 
     @overrides(MountSource)
     def versions(self, path: str) -> int:
-- 
2.43.0


From e5b7adcf7d435c09095d4fe0ee50cfd8041d6e66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:01 +0000
Subject: [PATCH 59/65] fix: make empty files in archives opened with
 libarchive readable

---
 core/ratarmountcore/mountsource/formats/libarchive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index d4af1c5..cc58446 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -398,7 +398,7 @@ class LibarchiveFile(io.RawIOBase):
 
     def _refill_buffer(self):
         bufferedSize = len(self._buffer) if self._buffer else 0
-        if self._bufferOffset + bufferedSize >= self.fileSize:
+        if self._bufferIO is not None and self._bufferOffset + bufferedSize >= self.fileSize:
             return
 
         self._bufferOffset += bufferedSize
-- 
2.43.0


From cf7f3cb618af6f7449ab568b651ac462ae638d2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:13:23 +0000
Subject: [PATCH 60/65] fix: let files opened with libarchive from the same
 file object be read independently

---
 .../mountsource/formats/libarchive.py         | 46 ++++++++++++++-----
 1 file changed, 34 insertions(+), 12 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index cc58446..497fab5 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -8,6 +8,7 @@ import logging
 import os
 import stat
 import sys
+import threading
 from collections.abc import Sequence
 from pathlib import Path
 from typing import IO, Callable, Optional, Union, cast
@@ -196,10 +197,17 @@ class IterableArchive:
         encoding='utf-8',
         passwords: Optional[Sequence[Union[str, bytes]]] = None,
         bufferSize=1024 * 1024,
+        fileLock: Optional[threading.Lock] = None,
     ):
+        """
+        fileLock: Must be specified if there are multiple archives that use the same file object. They can be used
+                  alternately because each one continues reading from where it has stopped itself.
+        """
         self.encoding = encoding
         self.bufferSize = bufferSize
         self._file = file
+        self._fileLock = fileLock or threading.Lock()
+        self._filePosition: Optional[int] = None  # None if the file object is not seekable.
         self._entryIndex = 0  # A consecutive number to identify entries even if they have the same name.
         self._buffer = None
         self._readCallback = None
@@ -273,12 +281,17 @@ class IterableArchive:
         self._buffer = ctypes.create_string_buffer(self.bufferSize)
 
         def read_from_file_object(_archive, _context, pointerToBufferPointer):
-            try:
-                size = self._file.readinto(self._buffer)
-            except (NotImplementedError, AttributeError):
-                result = self._file.read(self.bufferSize)
-                size = len(result)
-                self._buffer = ctypes.c_char_p(result)
+            with self._fileLock:
+                if self._filePosition is not None:
+                    self._file.seek(self._filePosition)
+                try:
+                    size = self._file.readinto(self._buffer)
+                except (NotImplementedError, AttributeError):
+                    result = self._file.read(self.bufferSize)
+                    size = len(result)
+                    self._buffer = ctypes.c_char_p(result)
+                if self._filePosition is not None:
+                    self._filePosition += size
             pointerToBufferPointer = ctypes.cast(pointerToBufferPointer, ctypes.POINTER(ctypes.c_void_p))
             pointerToBufferPointer[0] = ctypes.cast(self._buffer, ctypes.c_void_p)
             return size
@@ -286,10 +299,15 @@ class IterableArchive:
         if hasattr(self._file, 'seekable') and self._file.seekable() and hasattr(self._file, 'tell'):
 
             def seek_file_object(_archive, _context, offset, whence):
-                self._file.seek(offset, whence)
-                return self._file.tell()
-
-            self._file.seek(0)
+                with self._fileLock:
+                    if whence == io.SEEK_CUR:
+                        offset += self._filePosition
+                        whence = io.SEEK_SET
+                    self._file.seek(offset, whence)
+                    self._filePosition = self._file.tell()
+                    return self._filePosition
+
+            self._filePosition = 0
             self._seekCallback = laffi.SEEK_CALLBACK(seek_file_object)
             # Needs to be assigned to self, or else, ctypes lifetime issues result in a segfault!
             laffi.read_set_seek_callback(self._archive, self._seekCallback)
@@ -362,9 +380,11 @@ class LibarchiveFile(io.RawIOBase):
         fileSize,
         passwords: Optional[Sequence[str]] = None,
         archiveCache: Optional[IterableArchiveCache] = None,
+        fileLock: Optional[threading.Lock] = None,
     ):
         io.RawIOBase.__init__(self)
         self.file = file
+        self._fileLock = fileLock
         self.fileSize = fileSize
         self.entry_index = entry_index
         self.passwords = passwords
@@ -383,7 +403,7 @@ class LibarchiveFile(io.RawIOBase):
 
         self._archive = self._archiveCache.take(self.entry_index)
         if self._archive is None:
-            self._archive = IterableArchive(self.file, passwords=self.passwords)
+            self._archive = IterableArchive(self.file, passwords=self.passwords, fileLock=self._fileLock)
 
         while True:
             self._entry = self._archive.next_entry()
@@ -515,6 +535,7 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
         self.passwords = options.get("passwords", [])
         self.tarFileName = tarFileName
         self._archiveCache = IterableArchiveCache()
+        self._fileLock = threading.Lock()
 
         # Determine an archive file name to show for debug output and as file name inside the mount point for
         # simple non-TAR gzip/bzip2 stream-compressed files.
@@ -549,7 +570,7 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
         triedToOpen = False
         fileInfos = []
         gotAnyEntry = False
-        with IterableArchive(self.fileOrPath, passwords=self.passwords) as archive:
+        with IterableArchive(self.fileOrPath, passwords=self.passwords, fileLock=self._fileLock) as archive:
             while True:
                 entry = archive.next_entry()
                 if entry is None:
@@ -608,5 +629,6 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
                 fileSize=fileInfo.size,
                 passwords=self.passwords,
                 archiveCache=self._archiveCache,
+                fileLock=self._fileLock,
             ),
         )
-- 
2.43.0


From 4dc01c2763f1c5ac9d48cd5c5faec434f0e9934b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:35:07 +0000
Subject: [PATCH 61/65] fix: keep track of the position in files inside of
 SquashFS images

After reading, tell() returned the position before reading and seeks relative to it went
to the wrong position. read1(0) skipped the rest of the current block.
---
 core/ratarmountcore/mountsource/formats/squashfs.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/squashfs.py b/core/ratarmountcore/mountsource/formats/squashfs.py
index 6e99e9b..e417b9f 100644
--- a/core/ratarmountcore/mountsource/formats/squashfs.py
+++ b/core/ratarmountcore/mountsource/formats/squashfs.py
@@ -214,12 +214,12 @@ class SquashFSFile(io.RawIOBase):
             raise RuntimeError("Closed file cannot be read from!")
         result = self._bufferIO.read(size)
         # An empty buffer signals the end of the file!
-        if result or not self._buffer:
-            return result
+        if not result and self._buffer and size != 0:
+            self._refill_buffer(self._blockIndex + 1)  # Updates self._blockIndex!
+            result = self._bufferIO.read(size)
 
-        self._blockIndex += 1
-        self._refill_buffer(self._blockIndex)
-        return self._bufferIO.read(size)
+        self._offset += len(result)
+        return result
 
     @overrides(io.RawIOBase)
     def read(self, size: int = -1) -> bytes:
-- 
2.43.0


From f6447374ea6778d37b6db01c442197b1258f1df9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:08 +0000
Subject: [PATCH 62/65] fix: mount ZIP and RAR archives with invalid times and
 links with non-UTF-8 targets

Members with a zeroed DOS time made creating the index for ZIPs and listing RARs fail.
---
 core/ratarmountcore/mountsource/formats/rar.py | 9 ++++-----
 core/ratarmountcore/mountsource/formats/zip.py | 8 ++++++--
 2 files changed, 10 insertions(+), 7 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/rar.py b/core/ratarmountcore/mountsource/formats/rar.py
index 806a1b5..b9072dc 100644
--- a/core/ratarmountcore/mountsource/formats/rar.py
+++ b/core/ratarmountcore/mountsource/formats/rar.py
@@ -93,12 +93,11 @@ class RarMountSource(MountSource):
 
     @staticmethod
     def _convert_to_file_info(normalizedPath: str, info: "rarfile.RarInfo") -> FileInfo:
+        mtime: float = 0
         if info.date_time:
-            dtime = datetime.datetime(*info.date_time)
-            dtime = dtime.replace(tzinfo=datetime.timezone.utc)
-            mtime = dtime.timestamp() if info.date_time else 0
-        else:
-            mtime = 0
+            # The stored DOS time may be invalid. It is common for it to be zero, which results in a month 0 and day 0.
+            with contextlib.suppress(ValueError):
+                mtime = datetime.datetime(*info.date_time, tzinfo=datetime.timezone.utc).timestamp()
 
         # fmt: off
         return FileInfo(
diff --git a/core/ratarmountcore/mountsource/formats/zip.py b/core/ratarmountcore/mountsource/formats/zip.py
index 894316a..f8ad305 100644
--- a/core/ratarmountcore/mountsource/formats/zip.py
+++ b/core/ratarmountcore/mountsource/formats/zip.py
@@ -45,7 +45,11 @@ class ZipMountSource(SQLiteIndexMountSource):
         )
 
     def _convert_to_row(self, info: "zipfile.ZipInfo") -> tuple:
-        mtime = datetime.datetime(*info.date_time, tzinfo=datetime.timezone.utc).timestamp() if info.date_time else 0
+        mtime: float = 0
+        if info.date_time:
+            # The stored DOS time may be invalid. It is common for it to be zero, which results in a month 0 and day 0.
+            with contextlib.suppress(ValueError):
+                mtime = datetime.datetime(*info.date_time, tzinfo=datetime.timezone.utc).timestamp()
 
         # According to section 4.5.7 in the .ZIP file format specification, links are supported:
         # https://pkware.cachefly.net/webdocs/casestudies/APPNOTE.TXT
@@ -63,7 +67,7 @@ class ZipMountSource(SQLiteIndexMountSource):
         if mode == 0:
             mode = 0o770 if info.is_dir() else 0o660
         if stat.S_ISLNK(info.external_attr >> 16):
-            linkname = self.fileObject.read(info).decode()
+            linkname = self.fileObject.read(info).decode(errors='surrogateescape')
             mode = mode | stat.S_IFLNK
         else:
             mode = mode | (stat.S_IFDIR if info.is_dir() else stat.S_IFREG)
-- 
2.43.0


From 89d76b09ce157ce35f15a6d6c4dc32da86113abc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:30 +0000
Subject: [PATCH 63/65] fix: show hard links in archives opened with libarchive
 as the files they link to

They were shown as symbolic links whose targets are relative to the root of the archive
and therefore dangling inside of folders.
---
 core/ratarmountcore/mountsource/formats/libarchive.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index 497fab5..345a93f 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -131,12 +131,14 @@ class ArchiveEntry:
                 size += readSize
 
         mode = self.mode() & 0o777
-        linkname = self.linkname()
-        if linkname:
+        linkname = self.linkname() or ""
+        if self.is_symbolic_link():
             mode = mode | stat.S_IFLNK
-        else:
+        elif not linkname or size > 0:
+            # Hard links may also come with their own data, e.g., in CPIO archives.
             linkname = ""
             mode = mode | (stat.S_IFDIR if self.is_directory() else stat.S_IFREG)
+        # Else, it is a hard link, which has no file type, same as for TARs. It is resolved by FileVersionLayer.
 
         if not path:
             path = self.path()
-- 
2.43.0


From 86f5ed675e178896e1345532db72ee0e4ebd07bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:12:20 +0000
Subject: [PATCH 64/65] fix: list folders with special characters and without
 entries in SQLAR archives

Folders with [, *, or ? in their name seemed empty or contained files of others. Folders
that are not themselves members were missing, and entries for . were listed by that name.
---
 .../mountsource/formats/sqlar.py              | 65 ++++++++++++-------
 1 file changed, 42 insertions(+), 23 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/sqlar.py b/core/ratarmountcore/mountsource/formats/sqlar.py
index 4142310..d38bfae 100644
--- a/core/ratarmountcore/mountsource/formats/sqlar.py
+++ b/core/ratarmountcore/mountsource/formats/sqlar.py
@@ -1,4 +1,6 @@
+import builtins
 import posixpath
+import re
 import shutil
 import sqlite3
 import sys
@@ -187,15 +189,24 @@ class SQLARMountSource(MountSource):
 
         self.options = options
 
-        # Check for denormal names and store a normalized list if necessary.
-        self._files: dict[str, int] = {}
+        # Check for denormal names and missing parent folders and store a normalized list if necessary.
+        # The row ID is None for parent folders that are missing in the archive.
+        self._files: dict[str, Optional[int]] = {}
+        names = {''} | {name for name, in self.connection.execute("SELECT name FROM sqlar;")}
         if any(
-            posixpath.normpath(name.lstrip('/')) != name for name, in self.connection.execute("SELECT name FROM sqlar;")
+            SQLARMountSource._normalize(name) != name or posixpath.dirname(name) not in names for name in names
         ):
-            self._files = {
-                posixpath.normpath(name.lstrip('/')): rowid
-                for name, rowid in self.connection.execute("SELECT name,rowid FROM sqlar ORDER BY rowid;")
-            }
+            for name, rowid in self.connection.execute("SELECT name,rowid FROM sqlar ORDER BY rowid;"):
+                normalizedName = SQLARMountSource._normalize(name)
+                if normalizedName:
+                    self._files[normalizedName] = rowid
+            for name in builtins.list(self._files):
+                while name := posixpath.dirname(name):
+                    self._files.setdefault(name, None)
+
+    @staticmethod
+    def _normalize(name: str) -> str:
+        return posixpath.normpath('/' + name).lstrip('/')
 
     @staticmethod
     def _quick_check_file(fileObject: IO[bytes], name: str, passwords: Optional[Sequence[bytes]]) -> bytes:
@@ -274,50 +285,57 @@ class SQLARMountSource(MountSource):
         return True
 
     def _list_names(self, path: str) -> Optional[Iterable[str]]:
-        if not self._files:
-            return None
-
-        path = path.lstrip('/')
-        if path and not path.endswith('/'):
-            path = path + '/'
+        prefix = path.strip('/')
+        if prefix:
+            prefix += '/'
 
         # Use list instead of set to keep the order.
         names = []
         for name in self._files:
-            if not name.startswith(path):
+            if not name.startswith(prefix):
                 continue
-            name = name[len(path) :].split('/', maxsplit=1)[0]
+            name = name[len(prefix) :].split('/', maxsplit=1)[0]
             if name not in names:
                 names.append(name)
-        return names
+        return names if names or self.is_dir(path) else None
+
+    @staticmethod
+    def _get_children_query(path: str) -> tuple[str, int]:
+        """Returns the pattern for all paths inside of a folder and the position at which their names begin."""
+        path = path.strip('/')
+        if not path:
+            return "*", 1
+        return re.sub(r"([*?[])", r"[\1]", path) + "/*", len(path) + 2
 
     @overrides(MountSource)
     def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
         if self._files:
             return self._list_names(path)
 
-        pathGlob = "*" if path == "/" else path.strip("/") + "/*"
-        return {
+        pathGlob, nameBegin = self._get_children_query(path)
+        result = {
             name: SQLARMountSource._convert_to_file_info(rowid, mode, mtime, size, linkname)
             for name, rowid, mode, mtime, size, linkname in self.connection.execute(
                 f"SELECT substr(name,(?)),{SQLARMountSource._SQLITE_FILEINFO_COLUMNS} FROM sqlar "
                 "WHERE name GLOB (?) AND substr(name,(?)) NOT GLOB '*/*'",
-                (len(pathGlob), pathGlob, len(pathGlob)),
+                (nameBegin, pathGlob, nameBegin),
             )
         }
+        return result if result or self.is_dir(path) else None
 
     @overrides(MountSource)
     def list_mode(self, path: str) -> Optional[Union[Iterable[str], dict[str, int]]]:
         if self._files:
             return self._list_names(path)
 
-        pathGlob = "*" if path == "/" else path.strip("/") + "/*"
-        return dict(
+        pathGlob, nameBegin = self._get_children_query(path)
+        result = dict(
             self.connection.execute(
                 "SELECT substr(name,(?)), mode FROM sqlar WHERE name GLOB (?) AND substr(name,(?)) NOT GLOB '*/*'",
-                (len(pathGlob), pathGlob, len(pathGlob)),
+                (nameBegin, pathGlob, nameBegin),
             )
         )
+        return result if result or self.is_dir(path) else None
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
@@ -326,10 +344,11 @@ class SQLARMountSource(MountSource):
 
         if self._files:
             path = path.lstrip('/')
-            # We assume here that all parent folders to files appear in the table.
             if path not in self._files:
                 return None
             rowid = self._files[path]
+            if rowid is None:
+                return create_root_file_info([-1])
 
             result = self.connection.execute(
                 f"SELECT {SQLARMountSource._SQLITE_FILEINFO_COLUMNS} FROM sqlar WHERE rowid=(?)", (rowid,)
-- 
2.43.0


From d842e60e021de25aeafc7c09e3e429a0dd73267a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:18:00 +0000
Subject: [PATCH 65/65] fix: mount ASAR archives that contain links or for
 which files are stored beside the archive

Both made mounting the archive fail with an AssertionError.
---
 .../mountsource/formats/asar.py               | 23 +++++++++++++------
 1 file changed, 16 insertions(+), 7 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/asar.py b/core/ratarmountcore/mountsource/formats/asar.py
index 04fe9a2..4eb3543 100644
--- a/core/ratarmountcore/mountsource/formats/asar.py
+++ b/core/ratarmountcore/mountsource/formats/asar.py
@@ -2,6 +2,7 @@ import contextlib
 import json
 import logging
 import os
+import posixpath
 import stat
 import threading
 from pathlib import Path
@@ -63,7 +64,7 @@ logger = logging.getLogger(__name__)
 #    }
 # }
 #
-# There are no permissions, symbolic links (but hard links are possible), or file times.
+# There are no permissions or file times.
 class ASARMountSource(SQLiteIndexMountSource):
     def __init__(self, fileOrPath: Union[str, IO[bytes], Path], **options) -> None:
         if isinstance(fileOrPath, Path):
@@ -97,10 +98,13 @@ class ASARMountSource(SQLiteIndexMountSource):
     def _convert_to_row(self, fullPath, entry: dict[str, Any], dataOffset: int) -> tuple:
         path, name = SQLiteIndex.normpath(self.transform(fullPath)).rsplit("/", 1)
 
-        isFile = 'offset' in entry and 'size' in entry
-        isDirectory = 'files' in entry
-        assert isFile != isDirectory
-        mode = 0o777 | (stat.S_IFDIR if isDirectory else stat.S_IFREG)
+        linkname = ""
+        if 'link' in entry:
+            # Link targets are relative to the root of the archive.
+            linkname = posixpath.relpath('/' + entry['link'], posixpath.dirname(SQLiteIndex.normpath(fullPath)))
+            mode = 0o777 | stat.S_IFLNK
+        else:
+            mode = 0o777 | (stat.S_IFDIR if 'files' in entry else stat.S_IFREG)
 
         offset = dataOffset + int(entry.get("offset", "0"))
         size = int(entry.get("size", "0"))
@@ -115,7 +119,7 @@ class ASARMountSource(SQLiteIndexMountSource):
             0                 ,  # 5  : modification time
             mode              ,  # 6  : file mode / permissions
             0                 ,  # 7  : TAR file type. Currently unused. Overlaps with mode
-            ""                ,  # 8  : linkname
+            linkname          ,  # 8  : linkname
             0                 ,  # 9  : user ID
             0                 ,  # 10 : group ID
             False             ,  # 11 : is TAR (unused?)
@@ -138,7 +142,12 @@ class ASARMountSource(SQLiteIndexMountSource):
         fileInfos = [self._convert_to_row("/", header, self._dataOffset)]
         while toProcess:
             prefix, entry = toProcess.pop()
-            children = [(prefix + "/" + path, nestedEntry) for path, nestedEntry in entry['files'].items()]
+            # Files that have been marked as "unpacked" are not stored inside the archive but in a folder beside it.
+            children = [
+                (prefix + "/" + path, nestedEntry)
+                for path, nestedEntry in entry['files'].items()
+                if 'offset' in nestedEntry or 'files' in nestedEntry or 'link' in nestedEntry
+            ]
             # toProcess must only contain folder entries, which have a 'files' key mapping to a dictionary.
             fileInfos += [self._convert_to_row(path, nestedEntry, self._dataOffset) for path, nestedEntry in children]
             # Appending leads to depth-first traversal, while prepending leads to breadth-first traversal.
-- 
2.43.0

