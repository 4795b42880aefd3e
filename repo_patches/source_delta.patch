From f63cf8298535ce30b5a689631f7e41d9b2829219 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 01/92] fix: Show block devices inside TARs as block devices

---
 core/ratarmountcore/mountsource/formats/tar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 65a6dc8..fff010b 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -145,6 +145,7 @@ class _TarFileMetadataReader:
             | ( stat.S_IFREG if tarInfo.isfile() or tarInfo.type == b'D' else 0 )
             | ( stat.S_IFLNK if tarInfo.issym () else 0 )
             | ( stat.S_IFCHR if tarInfo.ischr () else 0 )
+            | ( stat.S_IFBLK if tarInfo.isblk () else 0 )
             | ( stat.S_IFIFO if tarInfo.isfifo() else 0 )
         )
         # fmt: on
-- 
2.43.0


From ac584a76277cc3d84c601f410455ebe508e7e6cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 02/92] fix: Do not mix file type bits stored in the TAR header
 mode with the entry type

---
 core/ratarmountcore/mountsource/formats/tar.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index fff010b..fa03630 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -140,7 +140,8 @@ class _TarFileMetadataReader:
 
         # fmt: off
         return (
-            tarInfo.mode
+            # Some archivers also store the file type in the mode, which would get mixed with the TAR entry type.
+            stat.S_IMODE(tarInfo.mode)
             | ( stat.S_IFDIR if tarInfo.isdir () else 0 )
             | ( stat.S_IFREG if tarInfo.isfile() or tarInfo.type == b'D' else 0 )
             | ( stat.S_IFLNK if tarInfo.issym () else 0 )
@@ -273,7 +274,7 @@ class _TarFileMetadataReader:
             # bits in the offset are redundant anyway.
             dirFileInfo[2] += 1
             dirFileInfo[4] = 0  # directory entries have no size by convention
-            dirFileInfo[6] = tarInfo.mode | stat.S_IFDIR
+            dirFileInfo[6] = stat.S_IMODE(tarInfo.mode) | stat.S_IFDIR
             fileInfos.append(tuple(dirFileInfo))
 
         return fileInfos, xattrRows, False, isGnuIncremental
-- 
2.43.0


From 394aa682662e5230d6e552ead128d490101cec69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 03/92] fix: Opening sparse TAR members without any hole

---
 core/ratarmountcore/mountsource/formats/tar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index fa03630..1665a04 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -1094,7 +1094,7 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
             if lastEnd < realFileSize:
                 stencils.append((True, 0, realFileSize - lastEnd))
 
-            zeros = cast(IO[bytes], ZeroFile(max(x[2] for x in stencils if x[0])))
+            zeros = cast(IO[bytes], ZeroFile(max((x[2] for x in stencils if x[0]), default=0)))
             return self._open_stencil(
                 [(zeros if is_null else self.tarFileObject, offset, size) for is_null, offset, size in stencils],
                 buffering,
-- 
2.43.0


From 008744357de1ea457da391ac7be384b3a95ab649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:41 +0000
Subject: [PATCH 04/92] fix: Reading empty files with the libarchive backend
 raised an exception

---
 core/ratarmountcore/mountsource/formats/libarchive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index d4af1c5..4ba13f6 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -399,6 +399,8 @@ class LibarchiveFile(io.RawIOBase):
     def _refill_buffer(self):
         bufferedSize = len(self._buffer) if self._buffer else 0
         if self._bufferOffset + bufferedSize >= self.fileSize:
+            if self._bufferIO is None:
+                self._bufferIO = io.BytesIO()  # Empty files never have any buffer to read into.
             return
 
         self._bufferOffset += bufferedSize
-- 
2.43.0


From aa383d1211020a868433cb78c8e160865cf1e350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:22 +0000
Subject: [PATCH 05/92] fix: Wrong file contents for WARC archives because of
 reused libarchive readers

---
 core/ratarmountcore/mountsource/formats/libarchive.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index 4ba13f6..8e0bc65 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -341,6 +341,10 @@ class IterableArchiveCache:
         self._cache: list[IterableArchive] = []
 
     def insert(self, archive: IterableArchive):
+        # The WARC reader of libarchive, the only one that may not have a format name, does not correctly find
+        # the next entry after some data has been read.
+        if b'WARC' in (archive.format_name() or b'WARC'):
+            return
         self._cache.append(archive)
         while len(self._cache) > self.cacheSize:
             self._cache.pop(0)
-- 
2.43.0


From d9b5dee0c92b11a5dd716e4c03530a66bc64e292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 06/92] fix: MountSource.read for TARs returned bytes after the
 end of the file member

---
 core/ratarmountcore/mountsource/formats/tar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 1665a04..09e2f4f 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -1109,6 +1109,7 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                 return file.read(size)
 
         # For non-sparse files, we can simply seek to the offset and read from it.
+        size = max(0, fileInfo.size - offset if size < 0 else min(size, fileInfo.size - offset))
         self.tarFileObject.seek(tarFileInfo.offset + offset, os.SEEK_SET)
         return self.tarFileObject.read(size)
 
-- 
2.43.0


From e716d53e12777621c293fecae22fbb8050aaff30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:58 +0000
Subject: [PATCH 07/92] fix: FileVersionLayer.get_mount_source returned file
 infos of itself instead of the mount source

---
 .../mountsource/compositing/versioning.py            | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index 73f6cbf..b5c0aa9 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -254,13 +254,11 @@ class FileVersionLayer(MountSource):
 
     @overrides(MountSource)
     def get_mount_source(self, fileInfo: FileInfo) -> tuple[str, MountSource, FileInfo]:
-        fileType = fileInfo.userdata.pop()
-        try:
-            if fileType == FileType.VERSIONS_FOLDER:
-                return '/', self, fileInfo
-            return self.mountSource.get_mount_source(fileInfo)
-        finally:
-            fileInfo.userdata.append(fileType)
+        # Do not modify the given file info because the result may be that same object.
+        sourceFileInfo = fileInfo.clone()
+        if sourceFileInfo.userdata.pop() == FileType.VERSIONS_FOLDER:
+            return '/', self, fileInfo
+        return self.mountSource.get_mount_source(sourceFileInfo)
 
     @overrides(MountSource)
     def list_xattr(self, fileInfo: FileInfo) -> builtins.list[str]:
-- 
2.43.0


From d9be97d2347a8dde38c8adadcd9ad5bf59e03012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:58 +0000
Subject: [PATCH 08/92] fix: Wrong position after reading files inside SquashFS
 images

---
 .../ratarmountcore/mountsource/formats/squashfs.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/squashfs.py b/core/ratarmountcore/mountsource/formats/squashfs.py
index 6e99e9b..23ef6bc 100644
--- a/core/ratarmountcore/mountsource/formats/squashfs.py
+++ b/core/ratarmountcore/mountsource/formats/squashfs.py
@@ -214,12 +214,13 @@ class SquashFSFile(io.RawIOBase):
             raise RuntimeError("Closed file cannot be read from!")
         result = self._bufferIO.read(size)
         # An empty buffer signals the end of the file!
-        if result or not self._buffer:
-            return result
+        if not result and self._buffer:
+            self._blockIndex += 1
+            self._refill_buffer(self._blockIndex)
+            result = self._bufferIO.read(size)
 
-        self._blockIndex += 1
-        self._refill_buffer(self._blockIndex)
-        return self._bufferIO.read(size)
+        self._offset += len(result)
+        return result
 
     @overrides(io.RawIOBase)
     def read(self, size: int = -1) -> bytes:
@@ -259,7 +260,8 @@ class SquashFSFile(io.RawIOBase):
         elif whence == io.SEEK_END:
             offset += self._size
 
-        self._offset = max(0, min(offset, self._size))
+        offset = max(0, min(offset, self._size))
+        self._offset = offset
         bufferOffset = self._blockIndex * self._block_size
         if offset < bufferOffset or offset >= bufferOffset + len(self._buffer):
             self._refill_buffer(offset // self._block_size)  # Updates self._blockIndex!
-- 
2.43.0


From c785b56373ddf3dfc546d413c662e3567f52f2a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:58 +0000
Subject: [PATCH 09/92] fix: Reading after the end of uncompressed files inside
 SQLAR raised an exception

---
 core/ratarmountcore/mountsource/formats/sqlar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/sqlar.py b/core/ratarmountcore/mountsource/formats/sqlar.py
index 4142310..04a8fd9 100644
--- a/core/ratarmountcore/mountsource/formats/sqlar.py
+++ b/core/ratarmountcore/mountsource/formats/sqlar.py
@@ -137,6 +137,9 @@ class FixedSqliteBlob(LambdaReaderFile):
         self.blob = blob
 
         def pread(offset: int, size: int) -> bytes:
+            # Seeking after the end of a blob raises a ValueError.
+            if offset >= len(self.blob):
+                return b''
             self.blob.seek(offset)
             return self.blob.read(size)
 
-- 
2.43.0


From 23a1a6a3593364026e083f62c3b17402c61671ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:53 +0000
Subject: [PATCH 10/92] fix: Files beginning with an empty bzip2 stream were
 not recognized

---
 core/ratarmountcore/formats.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/formats.py b/core/ratarmountcore/formats.py
index 67f1ac9..9e4f4d5 100644
--- a/core/ratarmountcore/formats.py
+++ b/core/ratarmountcore/formats.py
@@ -321,7 +321,11 @@ def _check_deflate(fileobj: IO[bytes]) -> bool:
 
 
 def _is_bzip2(fileobj: IO[bytes]) -> bool:
-    return fileobj.read(4)[:3] == b'BZh' and fileobj.read(6) == (0x314159265359).to_bytes(6, 'big')
+    # Empty streams have no block and consist of the end-of-stream magic bytes directly after the header.
+    return fileobj.read(4)[:3] == b'BZh' and fileobj.read(6) in [
+        (0x314159265359).to_bytes(6, 'big'),
+        (0x177245385090).to_bytes(6, 'big'),
+    ]
 
 
 def _check_lz4_header(fileobj: IO[bytes]) -> bool:
-- 
2.43.0


From 304071db56aa6ae07d3e00ddff204f7f58d6d376 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:10 +0000
Subject: [PATCH 11/92] fix: Wrong data when seeking forward in uncompressed
 ZIP members with several files open

---
 core/ratarmountcore/mountsource/formats/zip.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/zip.py b/core/ratarmountcore/mountsource/formats/zip.py
index 894316a..e4a5048 100644
--- a/core/ratarmountcore/mountsource/formats/zip.py
+++ b/core/ratarmountcore/mountsource/formats/zip.py
@@ -1,5 +1,6 @@
 import contextlib
 import datetime
+import io
 import logging
 import stat
 import sys
@@ -144,4 +145,17 @@ class ZipMountSource(SQLiteIndexMountSource):
         # same underlying file object concurrently by using a _SharedFile class that even includes a lock.
         # Very nice!
         # https://github.com/python/cpython/blob/a87c46eab3c306b1c5b8a072b7b30ac2c50651c0/Lib/zipfile/__init__.py#L1569
-        return self.fileObject.open(info, 'r')  # https://github.com/pauldmccarthy/indexed_gzip/issues/85
+        file = self.fileObject.open(info, 'r')  # https://github.com/pauldmccarthy/indexed_gzip/issues/85
+
+        # Except that _SharedFile.seek with SEEK_CUR, which is used to seek forward inside uncompressed files, is relative
+        # to the position of the underlying file object, which depends on what has been read from other opened files.
+        sharedFile = getattr(file, '_fileobj', None)
+        if sharedFile is not None and hasattr(sharedFile, 'tell'):
+            seek = sharedFile.seek
+
+            def seek_independently(offset: int, whence: int = io.SEEK_SET) -> int:
+                return seek(sharedFile.tell() + offset) if whence == io.SEEK_CUR else seek(offset, whence)
+
+            sharedFile.seek = seek_independently
+
+        return file
-- 
2.43.0


From 528ea52c29701c24cfc53634545e58167a9894dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:56 +0000
Subject: [PATCH 12/92] fix: Wrong long file names inside AR archives with more
 than one long name

---
 core/ratarmountcore/mountsource/formats/ar.py | 28 +++++--------------
 1 file changed, 7 insertions(+), 21 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/ar.py b/core/ratarmountcore/mountsource/formats/ar.py
index 6e4e8a4..97b32e1 100644
--- a/core/ratarmountcore/mountsource/formats/ar.py
+++ b/core/ratarmountcore/mountsource/formats/ar.py
@@ -72,9 +72,8 @@ def _parse_ar_archive(fileObject: IO[bytes]) -> list[tarfile.TarInfo]:
     POSIX_SYMBOL_TABLE_NAME = b'/'
     GNU_INDEX_NAME = b'//'
     BSD_LONG_NAME_PREFIX = b'#1/'
-    # For thin archives, it simply is bytes because for some reason thin archives use byte indexes while
-    # normal archives index by file name entry.
-    long_names: Optional[Union[bytes, list[bytes]]] = None
+    # The names are referenced by their byte offset in this table.
+    long_names: Optional[bytes] = None
 
     # It could be argued that the special 'debian-binary' text file could be ignored because it should be
     # interpreted as some kind of magic bytes, but I am not fully convinced of that. Simply also display
@@ -84,13 +83,8 @@ def _parse_ar_archive(fileObject: IO[bytes]) -> list[tarfile.TarInfo]:
         if long_names and name.startswith(b'/') and name[1:].isdigit():
             index = int(name[1:])
             if index >= 0 and index < len(long_names):
-                if not is_thin:
-                    return long_names[index]
-
-                if isinstance(long_names, bytes):  # Should always be the case for is_thin.
-                    end = long_names.find(b'/\n', index)
-                    if end >= index:
-                        return long_names[index:end]
+                # GNU terminates the names with a slash and a newline and COFF with a null byte.
+                return long_names[index:].split(b'\0', 1)[0].split(b'/\n', 1)[0]
         return name
 
     while header_data := fileObject.read(HEADER_SIZE):
@@ -138,17 +132,9 @@ def _parse_ar_archive(fileObject: IO[bytes]) -> list[tarfile.TarInfo]:
             continue
 
         if name == GNU_INDEX_NAME:
-            if is_thin:
-                long_names = fileObject.read(size)
-            else:
-                long_names = fileObject.read(size).split(b'/\n')
-
-                # GNU ar pads the table internally to an even size.
-                if size % 2 == 0:
-                    if long_names and long_names[-1] in (b'\x60', b'\x0a'):
-                        long_names.pop()
-                else:
-                    fileObject.seek(size % 2, io.SEEK_CUR)  # Skip padding
+            long_names = fileObject.read(size)
+            if not is_thin:
+                fileObject.seek(size % 2, io.SEEK_CUR)  # Skip padding
 
             # Retroactively apply the index if it is not the very first entry in the archive.
             for file in files:
-- 
2.43.0


From 68641a7989cc373a270e87b96f531ebf122095b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:39 +0000
Subject: [PATCH 13/92] fix: Opening HTML archives from file objects closed the
 given file object

---
 core/ratarmountcore/mountsource/formats/html.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/html.py b/core/ratarmountcore/mountsource/formats/html.py
index d2f694e..eee9d9f 100644
--- a/core/ratarmountcore/mountsource/formats/html.py
+++ b/core/ratarmountcore/mountsource/formats/html.py
@@ -430,9 +430,14 @@ class HTMLMountSource(SQLiteIndexMountSource):
         self.mtime = os.stat(fileOrPath).st_mtime if isinstance(fileOrPath, str) else time.time()
 
         # html.parser seems to be very lenient. Therefore, check manually and hope that the check is lenient enough.
-        with open(fileOrPath, 'rb') if isinstance(fileOrPath, str) else fileOrPath as file:
-            if not is_html_file(file):
-                raise ValueError("Not a valid HTML file!")
+        # Do not close file objects given by the caller!
+        if isinstance(fileOrPath, str):
+            with open(fileOrPath, 'rb') as file:
+                isHTML = is_html_file(file)
+        else:
+            isHTML = is_html_file(fileOrPath)
+        if not isHTML:
+            raise ValueError("Not a valid HTML file!")
 
         self.fileObjectLock = threading.Lock()
         self.fileObject = (
-- 
2.43.0


From f8f34da92a9fc4bf07dbeeb2a0d06a2030cf39d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:47 +0000
Subject: [PATCH 14/92] fix: Wrong data or errors when the libarchive backend
 reads from a shared file object

---
 .../mountsource/formats/libarchive.py         | 47 ++++++++++++++-----
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index 8e0bc65..9feec5c 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -8,6 +8,7 @@ import logging
 import os
 import stat
 import sys
+import threading
 from collections.abc import Sequence
 from pathlib import Path
 from typing import IO, Callable, Optional, Union, cast
@@ -196,10 +197,14 @@ class IterableArchive:
         encoding='utf-8',
         passwords: Optional[Sequence[Union[str, bytes]]] = None,
         bufferSize=1024 * 1024,
+        fileObjectLock=None,
     ):
         self.encoding = encoding
         self.bufferSize = bufferSize
         self._file = file
+        # The file object may be shared with other readers. Therefore, each reader tracks its own position.
+        self._fileObjectLock = fileObjectLock or threading.Lock()
+        self._filePosition = 0
         self._entryIndex = 0  # A consecutive number to identify entries even if they have the same name.
         self._buffer = None
         self._readCallback = None
@@ -271,25 +276,35 @@ class IterableArchive:
         if not hasattr(self._file, 'readinto'):
             return
         self._buffer = ctypes.create_string_buffer(self.bufferSize)
+        self._filePosition = 0
+        seekable = hasattr(self._file, 'seekable') and self._file.seekable() and hasattr(self._file, 'tell')
 
         def read_from_file_object(_archive, _context, pointerToBufferPointer):
-            try:
-                size = self._file.readinto(self._buffer)
-            except (NotImplementedError, AttributeError):
-                result = self._file.read(self.bufferSize)
-                size = len(result)
-                self._buffer = ctypes.c_char_p(result)
+            with self._fileObjectLock:
+                if seekable:
+                    self._file.seek(self._filePosition)
+                try:
+                    size = self._file.readinto(self._buffer)
+                except (NotImplementedError, AttributeError):
+                    result = self._file.read(self.bufferSize)
+                    size = len(result)
+                    self._buffer = ctypes.c_char_p(result)
+                self._filePosition += size
             pointerToBufferPointer = ctypes.cast(pointerToBufferPointer, ctypes.POINTER(ctypes.c_void_p))
             pointerToBufferPointer[0] = ctypes.cast(self._buffer, ctypes.c_void_p)
             return size
 
-        if hasattr(self._file, 'seekable') and self._file.seekable() and hasattr(self._file, 'tell'):
+        if seekable:
 
             def seek_file_object(_archive, _context, offset, whence):
-                self._file.seek(offset, whence)
-                return self._file.tell()
+                with self._fileObjectLock:
+                    if whence == io.SEEK_CUR:
+                        offset += self._filePosition
+                        whence = io.SEEK_SET
+                    self._file.seek(offset, whence)
+                    self._filePosition = self._file.tell()
+                    return self._filePosition
 
-            self._file.seek(0)
             self._seekCallback = laffi.SEEK_CALLBACK(seek_file_object)
             # Needs to be assigned to self, or else, ctypes lifetime issues result in a segfault!
             laffi.read_set_seek_callback(self._archive, self._seekCallback)
@@ -366,9 +381,11 @@ class LibarchiveFile(io.RawIOBase):
         fileSize,
         passwords: Optional[Sequence[str]] = None,
         archiveCache: Optional[IterableArchiveCache] = None,
+        fileObjectLock=None,
     ):
         io.RawIOBase.__init__(self)
         self.file = file
+        self.fileObjectLock = fileObjectLock
         self.fileSize = fileSize
         self.entry_index = entry_index
         self.passwords = passwords
@@ -387,7 +404,9 @@ class LibarchiveFile(io.RawIOBase):
 
         self._archive = self._archiveCache.take(self.entry_index)
         if self._archive is None:
-            self._archive = IterableArchive(self.file, passwords=self.passwords)
+            self._archive = IterableArchive(
+                self.file, passwords=self.passwords, fileObjectLock=self.fileObjectLock
+            )
 
         while True:
             self._entry = self._archive.next_entry()
@@ -521,6 +540,7 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
         self.passwords = options.get("passwords", [])
         self.tarFileName = tarFileName
         self._archiveCache = IterableArchiveCache()
+        self._fileObjectLock = threading.Lock()
 
         # Determine an archive file name to show for debug output and as file name inside the mount point for
         # simple non-TAR gzip/bzip2 stream-compressed files.
@@ -555,7 +575,9 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
         triedToOpen = False
         fileInfos = []
         gotAnyEntry = False
-        with IterableArchive(self.fileOrPath, passwords=self.passwords) as archive:
+        with IterableArchive(
+            self.fileOrPath, passwords=self.passwords, fileObjectLock=self._fileObjectLock
+        ) as archive:
             while True:
                 entry = archive.next_entry()
                 if entry is None:
@@ -614,5 +636,6 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
                 fileSize=fileInfo.size,
                 passwords=self.passwords,
                 archiveCache=self._archiveCache,
+                fileObjectLock=self._fileObjectLock,
             ),
         )
-- 
2.43.0


From 5150c36b6c39290b9882422162bd85563cf73d92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:06 +0000
Subject: [PATCH 15/92] fix: Folders with GLOB characters in their names were
 not listed correctly for SQLAR archives

---
 .../mountsource/formats/sqlar.py              | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/sqlar.py b/core/ratarmountcore/mountsource/formats/sqlar.py
index 04a8fd9..1db80b4 100644
--- a/core/ratarmountcore/mountsource/formats/sqlar.py
+++ b/core/ratarmountcore/mountsource/formats/sqlar.py
@@ -276,6 +276,12 @@ class SQLARMountSource(MountSource):
     def is_immutable(self) -> bool:
         return True
 
+    @staticmethod
+    def _get_prefix(path: str) -> str:
+        # Do not use GLOB or LIKE to match paths because names may contain any of their special characters.
+        path = path.strip("/")
+        return path + "/" if path else ""
+
     def _list_names(self, path: str) -> Optional[Iterable[str]]:
         if not self._files:
             return None
@@ -299,13 +305,13 @@ class SQLARMountSource(MountSource):
         if self._files:
             return self._list_names(path)
 
-        pathGlob = "*" if path == "/" else path.strip("/") + "/*"
+        prefix = self._get_prefix(path)
         return {
             name: SQLARMountSource._convert_to_file_info(rowid, mode, mtime, size, linkname)
             for name, rowid, mode, mtime, size, linkname in self.connection.execute(
                 f"SELECT substr(name,(?)),{SQLARMountSource._SQLITE_FILEINFO_COLUMNS} FROM sqlar "
-                "WHERE name GLOB (?) AND substr(name,(?)) NOT GLOB '*/*'",
-                (len(pathGlob), pathGlob, len(pathGlob)),
+                "WHERE substr(name,1,(?)) == (?) AND instr(substr(name,(?)),'/') == 0",
+                (len(prefix) + 1, len(prefix), prefix, len(prefix) + 1),
             )
         }
 
@@ -314,11 +320,12 @@ class SQLARMountSource(MountSource):
         if self._files:
             return self._list_names(path)
 
-        pathGlob = "*" if path == "/" else path.strip("/") + "/*"
+        prefix = self._get_prefix(path)
         return dict(
             self.connection.execute(
-                "SELECT substr(name,(?)), mode FROM sqlar WHERE name GLOB (?) AND substr(name,(?)) NOT GLOB '*/*'",
-                (len(pathGlob), pathGlob, len(pathGlob)),
+                "SELECT substr(name,(?)), mode FROM sqlar "
+                "WHERE substr(name,1,(?)) == (?) AND instr(substr(name,(?)),'/') == 0",
+                (len(prefix) + 1, len(prefix), prefix, len(prefix) + 1),
             )
         )
 
-- 
2.43.0


From 47262a161c8390c5a2a0f9f68733c0f688ee06c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:50 +0000
Subject: [PATCH 16/92] fix: Failed seeks left stenciled files with a negative
 position

---
 core/ratarmountcore/StenciledFile.py | 26 ++++++++++----------------
 1 file changed, 10 insertions(+), 16 deletions(-)

diff --git a/core/ratarmountcore/StenciledFile.py b/core/ratarmountcore/StenciledFile.py
index 7bce4b0..691edbe 100644
--- a/core/ratarmountcore/StenciledFile.py
+++ b/core/ratarmountcore/StenciledFile.py
@@ -158,17 +158,14 @@ class RawStenciledFile(FixedRawIOBase):
     @overrides(io.RawIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
         if whence == io.SEEK_CUR:
-            self.offset += offset
+            offset += self.offset
         elif whence == io.SEEK_END:
-            self.offset = self.cumsizes[-1] + offset
-        elif whence == io.SEEK_SET:
-            self.offset = offset
+            offset += self.cumsizes[-1]
 
-        if self.offset < 0:
+        # Do not change the position if the seek fails.
+        if offset < 0:
             raise ValueError("Trying to seek before the start of the file!")
-        if self.offset >= self.cumsizes[-1]:
-            return self.offset
-
+        self.offset = offset
         return self.offset
 
     @overrides(io.RawIOBase)
@@ -393,17 +390,14 @@ class LambdaReaderFile(io.RawIOBase):
     @overrides(io.RawIOBase)
     def seek(self, offset: int, whence: int = io.SEEK_SET) -> int:
         if whence == io.SEEK_CUR:
-            self.offset += offset
+            offset += self.offset
         elif whence == io.SEEK_END:
-            self.offset = self.size + offset
-        elif whence == io.SEEK_SET:
-            self.offset = offset
+            offset += self.size
 
-        if self.offset < 0:
+        # Do not change the position if the seek fails.
+        if offset < 0:
             raise ValueError("Trying to seek before the start of the file!")
-        if self.offset >= self.size:
-            return self.offset
-
+        self.offset = offset
         return self.offset
 
     @overrides(io.RawIOBase)
-- 
2.43.0


From f96a9cd8789af2057b5a1d60db91f60adc706766 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:50 +0000
Subject: [PATCH 17/92] fix: Reading everything from joined files returned only
 one part

---
 core/ratarmountcore/StenciledFile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/StenciledFile.py b/core/ratarmountcore/StenciledFile.py
index 691edbe..3b8c077 100644
--- a/core/ratarmountcore/StenciledFile.py
+++ b/core/ratarmountcore/StenciledFile.py
@@ -259,8 +259,8 @@ class RawJoinedFileFromFactory(io.RawIOBase):
     @overrides(io.RawIOBase)
     def read(self, size: int = -1) -> bytes:
         # See StenciledFile.read
-        if size == -1:
-            size = self.cumsizes[-1] - self.offset
+        if size is None or size < 0:
+            return self.readall()
 
         # This loop works in a kind of leapfrog fashion. On each even loop iteration it seeks to the next stencil
         # and on each odd iteration it reads the data and increments the offset inside the stencil!
-- 
2.43.0


From ebd669e12e3a6937d11e26c4453d0781ba7f8368 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:50 +0000
Subject: [PATCH 18/92] fix: Symbolic links to files with split-like names
 raised exceptions or were not joined

---
 core/ratarmountcore/compressions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/compressions.py b/core/ratarmountcore/compressions.py
index bcf7c11..cce8c76 100644
--- a/core/ratarmountcore/compressions.py
+++ b/core/ratarmountcore/compressions.py
@@ -319,7 +319,8 @@ def check_for_split_file_in(path: str, candidateNames: Iterable[str]) -> Optiona
     # These character tests are necessary because Python's built-in isalpha, isdigit and such
     # all also return true for a lot of Unicode alternatives like for the Thai zero.
 
-    filename = os.path.split(os.path.realpath(path))[1]  # Get file extensions
+    # Do not resolve symbolic links because the given candidate names and the returned paths belong to the given path!
+    filename = os.path.basename(path)  # Get file extensions
     if '.' not in filename:
         return None
     basename, extension = filename.rsplit('.', maxsplit=1)
@@ -327,9 +328,8 @@ def check_for_split_file_in(path: str, candidateNames: Iterable[str]) -> Optiona
     # Collect all other files in the folder that might belong to the same split.
     extensions = [name[len(basename) + 1 :] for name in candidateNames if name.startswith(basename + '.')]
     extensions = [e for e in extensions if has_matching_alphabets(e, extension)]
-    if not extensions:
+    if not extensions or extension not in extensions:
         return None
-    assert extension in extensions
 
     # Note that even if something consists only of letters or only digits it still might be hexadecimal encoding!
     maxFormatSpecifier = ''
-- 
2.43.0


From 8265fb736691b039c6c2e4ae1169fb0fe8c427e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:50 +0000
Subject: [PATCH 19/92] fix: Opening a file after a gap in a sequence of split
 files showed the files before the gap

---
 core/ratarmountcore/compressions.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/compressions.py b/core/ratarmountcore/compressions.py
index cce8c76..db9ab82 100644
--- a/core/ratarmountcore/compressions.py
+++ b/core/ratarmountcore/compressions.py
@@ -342,7 +342,8 @@ def check_for_split_file_in(path: str, candidateNames: Iterable[str]) -> Optiona
             maxFormatSpecifier = formatSpecifier
             maxExtensions = extensionSequence
 
-    if maxFormatSpecifier and len(maxExtensions) > 1:
+    # Do not return files before a gap in the sequence for a file after that gap.
+    if maxFormatSpecifier and len(maxExtensions) > 1 and extension in maxExtensions:
         paths = [path.rsplit('.', maxsplit=1)[0] + '.' + extension for extension in maxExtensions]
         return paths, maxFormatSpecifier
 
-- 
2.43.0


From 0b24de5d2cfeee06df4dde1a48e4c0212f8a1dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:36 +0000
Subject: [PATCH 20/92] fix: Sparse TAR members with a trailing hole were
 unreadable with the libarchive backend

---
 core/ratarmountcore/mountsource/formats/libarchive.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index 9feec5c..37e3b35 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -438,6 +438,11 @@ class LibarchiveFile(io.RawIOBase):
             self._buffer = ctypes.create_string_buffer(sizeToRead)
 
         readSize = self._archive.read_data(self._buffer, sizeToRead)
+        formatName = (self._archive.format_name() or b'').lower()
+        if 0 <= readSize < sizeToRead and any(name in formatName for name in (b'tar', b'pax')):
+            # Holes at the end of sparse files are not returned by libarchive. Truncated archives raise an exception.
+            ctypes.memset(ctypes.byref(self._buffer, readSize), 0, sizeToRead - readSize)
+            readSize = sizeToRead
         if readSize != sizeToRead:
             raise RuntimeError(f"Read {readSize} bytes but expected {self.fileSize} for entry {self.entry_index}!")
         self._bufferIO = io.BytesIO(self._buffer)
-- 
2.43.0


From 5930b857818f9a89525cda6e424ebbce0aa2831e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:48 +0000
Subject: [PATCH 21/92] fix: An index found not to match after loading blocked
 its location for the recreated index

---
 core/ratarmountcore/SQLiteIndex.py            | 34 ++++++++++++++-----
 .../ratarmountcore/mountsource/formats/tar.py |  2 +-
 2 files changed, 26 insertions(+), 10 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 015f928..47a2424 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -270,6 +270,7 @@ class SQLiteIndex:
         self.backendName = backendName
         self._insertedRowCount = 0
         self._temporaryIndexFile: Optional[Any] = None
+        self._loadedIndexFilePath: Optional[str] = None
 
         if indexFolders is None:
             indexFolders = ['', os.path.join("~", ".ratarmount")]
@@ -1371,18 +1372,33 @@ class SQLiteIndex:
             logger.warning("and mounting is slow, try to find out why loading fails repeatedly,")
             logger.warning("e.g., by opening an issue on the public github page.")
 
-            try:
-                if not self.readOnly and '://' not in indexFilePath:
-                    os.remove(indexFilePath)
-            except OSError:
-                logger.warning(
-                    "Failed to remove corrupted old cached index file: %s",
-                    indexFilePath,
-                    exc_info=logger.isEnabledFor(logging.DEBUG),
-                )
+            self._remove_invalid_index(indexFilePath)
 
+        if self.index_is_loaded():
+            self._loadedIndexFilePath = indexFilePath
         return self.index_is_loaded()
 
+    def _remove_invalid_index(self, indexFilePath: str) -> None:
+        try:
+            if not self.readOnly and '://' not in indexFilePath:
+                os.remove(indexFilePath)
+        except OSError:
+            logger.warning(
+                "Failed to remove corrupted old cached index file: %s",
+                indexFilePath,
+                exc_info=logger.isEnabledFor(logging.DEBUG),
+            )
+
+    def discard(self) -> None:
+        """
+        Closes and removes a successfully loaded index that was found to not match the archive later on, so that its
+        location can be used for a new index.
+        """
+        self.close()
+        if self._loadedIndexFilePath:
+            self._remove_invalid_index(self._loadedIndexFilePath)
+            self._loadedIndexFilePath = None
+
     def clear_compression_offsets(self):
         for table in ['bzip2blocks', 'gzipindex', 'gzipindexes', 'gztoolindex', 'zstdblocks']:
             self.get_connection().execute(f"DROP TABLE IF EXISTS {table}")
diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 09e2f4f..776759d 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -720,7 +720,7 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                 self.index.reload_index_read_only()
                 return
 
-            self.index.close()
+            self.index.discard()
             logger.warning("The loaded index does not match the archive. Will recreate it.")
 
         # At this point, self.index.index_is_loaded() should return false because either it was false already
-- 
2.43.0


From d79d290612e8e8757e97c206f983957eb10b3cc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:48 +0000
Subject: [PATCH 22/92] fix: Implied folders got an additional version when
 appending them explicitly to an indexed TAR

---
 core/ratarmountcore/SQLiteIndex.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 47a2424..02ca0d4 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -703,7 +703,16 @@ class SQLiteIndex:
         # libsqlite 3.22 was released 2018-01-22. https://www.sqlite.org/changes.html
         searchByTuple = """(path,name) NOT IN ( SELECT path,name"""
         searchByConcat = """path || '/' || name NOT IN ( SELECT path || '/' || name"""
+        existsByTuple = searchByTuple.replace(' NOT IN ', ' IN ')
+        existsByConcat = searchByConcat.replace(' NOT IN ', ' IN ')
         cleanUpDatabase = f"""
+            /* When extending an existing index, formerly implied parent folders might now be part of the archive.
+             * Implied parent folders can be recognized by having an integer type in contrast to TAR members. */
+            DELETE FROM "files"
+                WHERE mode == {int(0o555 | stat.S_IFDIR)} AND typeof("type") == 'integer' AND size == 0 AND mtime == 0
+                AND {existsByTuple if _get_libsqlite_version() >= (3, 22, 0) else existsByConcat}
+                    FROM "files" WHERE mode & (1 << 14) != 0 AND typeof("type") == 'blob'
+                );
             INSERT OR REPLACE INTO "files" SELECT * FROM "filestmp" ORDER BY "path","name",rowid;
             DROP TABLE "filestmp";
             INSERT OR IGNORE INTO "files"
-- 
2.43.0


From ec98142d1f609d4e6720e024cef070b146361f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:49 +0000
Subject: [PATCH 23/92] fix: Missing hashes for files appended to an indexed
 TAR

---
 core/ratarmountcore/mountsource/formats/tar.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 776759d..f50e973 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -715,6 +715,7 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                     create_index=lambda: self._create_index(appendedPartAsFile, streamOffset=pastEndOffset)
                 )
 
+                self._compute_and_store_hashes()
                 self.index.drop_metadata()
                 self._store_metadata()
                 self.index.reload_index_read_only()
-- 
2.43.0


From cccbba5337a0fa0e20b103e581cdc91ecc09ca19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:49 +0000
Subject: [PATCH 24/92] fix: Members appended to a TAR ending with a nested TAR
 or link were missing or raised exceptions

---
 .../ratarmountcore/mountsource/formats/tar.py | 22 ++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index f50e973..d1a773c 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -1141,14 +1141,26 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
         # files right after the the last non-zero block, which might be at offset 512 for empty files.
         # > The user can specify a blocking factor, which is the number of blocks per record.
         # > The default is 20, producing 10 KiB records.
-        result = sqlConnection.execute(
-            "SELECT offset + size, issparse FROM files ORDER BY offset DESC LIMIT 1"
+        #
+        # The member ending last need not be the row with the largest offset because that one might be inside of a
+        # recursively mounted TAR. The rows for the mount points of those have 1 added to the actual offset.
+        # The size of links does not describe any data.
+        fileCount, pastEndOffset = sqlConnection.execute(
+            """
+            SELECT COUNT(*), MAX(
+                CASE WHEN issparse THEN NULL
+                     WHEN IFNULL(linkname, '') != '' THEN offset
+                     ELSE offset / 512 * 512 + size END
+            ) FROM files
+            """
         ).fetchone()
-        if not result:
+        if not fileCount:
             raise InvalidIndexError("The index contains no files!")
-        pastEndOffset, isSparse = result
 
-        if isSparse:
+        isSparse = sqlConnection.execute(
+            "SELECT 1 FROM files WHERE issparse AND offset >= ? LIMIT 1", (pastEndOffset or 0,)
+        ).fetchone()
+        if isSparse or pastEndOffset is None:
             return None
 
         # Round up to next TAR block
-- 
2.43.0


From 70d8cd1c5c07b93fae5ac4f4cdbc83b6095e80eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:49 +0000
Subject: [PATCH 25/92] fix: Exceptions when checking whether the index of a
 changed TAR is valid

---
 core/ratarmountcore/mountsource/formats/tar.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index d1a773c..9aae3f2 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -1422,8 +1422,9 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                         return False
 
             return True
-        except tarfile.TarError:
+        except (tarfile.TarError, StopIteration, ValueError, OverflowError):
             # Not even worth warning because this simply might happen if the index is not valid anymore.
+            # E.g., StopIteration is raised when there are only zeros and ValueError when there is arbitrary data.
             return False
         finally:
             self.tarFileObject.seek(oldOffset)
-- 
2.43.0


From 26d0d196379c40bd6ca5b122499c0a8a3d8d0f54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:18 +0000
Subject: [PATCH 26/92] fix: SQLiteIndexMountSource opened explicitly given
 indexes writable

---
 core/ratarmountcore/mountsource/SQLiteIndexMountSource.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
index 2df1a3a..379eec9 100644
--- a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
+++ b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
@@ -79,7 +79,7 @@ class SQLiteIndexMountSource(MountSource):
                 self.indexFilePath = self._temporaryFile.name
 
             # Encoding is only used for set_file_infos, so we are fine not forwarding it.
-            self.index = SQLiteIndex(indexFilePath=self.indexFilePath, indexFolders=[], readOnly=True)
+            self.index = SQLiteIndex(indexFilePath=self.indexFilePath, indexFolders=[], readOnlyIndex=True)
 
         # Initialize members before using checkMetadata because it might to try to use those.
         self.archiveFilePath = self.index.archiveFilePath
-- 
2.43.0


From e20e73c38da34faf21b6cd71d419fc827fa665e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:18 +0000
Subject: [PATCH 27/92] fix: Archives replaced by one of another format were
 opened with the wrong backend because of the outdated index

---
 core/ratarmountcore/SQLiteIndex.py                        | 6 ++++++
 core/ratarmountcore/mountsource/SQLiteIndexMountSource.py | 4 +++-
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 02ca0d4..fc7ec5f 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -224,6 +224,7 @@ class SQLiteIndex:
         backendName: str = '',
         ignoreCurrentFolder: bool = False,
         readOnlyIndex: bool = False,
+        verifyModificationTime: bool = False,
         **_,
     ):
         """
@@ -251,6 +252,8 @@ class SQLiteIndex:
             opened as file objects but may be useful for any archive given via a file object.
         readOnlyIndex
             Never delete or modify existing indexes nor create new ones. Open indexes read-only from the start.
+        verifyModificationTime
+            Also compare modification times to find out whether an index of another backend is outdated.
         """
 
         self.sqlConnection: Optional[sqlite3.Connection] = None
@@ -268,6 +271,7 @@ class SQLiteIndex:
         self.preferMemory = preferMemory
         self.indexMinimumFileCount = indexMinimumFileCount
         self.backendName = backendName
+        self.verifyModificationTime = verifyModificationTime
         self._insertedRowCount = 0
         self._temporaryIndexFile: Optional[Any] = None
         self._loadedIndexFilePath: Optional[str] = None
@@ -585,6 +589,8 @@ class SQLiteIndex:
         # Because of a lack of sufficient foresight, the backend name was not added to the index in older versions.
         backendName = metadata.get('backendName')
         if isinstance(backendName, str) and backendName != self.backendName:
+            # The archive might have been replaced with one of another format. Then, the index is simply outdated.
+            SQLiteIndex.check_archive_stats(self.archiveFilePath, metadata, self.verifyModificationTime)
             raise MismatchingIndexError(
                 f"Cannot open an index created with backend '{backendName}'!\n"
                 f"Will stop trying to open the archive with backend '{self.backendName}'.\n"
diff --git a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
index 379eec9..43c7be6 100644
--- a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
+++ b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
@@ -58,7 +58,9 @@ class SQLiteIndexMountSource(MountSource):
 
         # Initialize index
         if index is None:
-            self.index = SQLiteIndex(indexMinimumFileCount=indexMinimumFileCount, **options)
+            self.index = SQLiteIndex(
+                indexMinimumFileCount=indexMinimumFileCount, verifyModificationTime=verifyModificationTime, **options
+            )
             if clearIndexCache:
                 self.index.clear_indexes()
         else:
-- 
2.43.0


From 5973f14cc996d2af6113f115063075e7d9376100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:40 +0000
Subject: [PATCH 28/92] fix: Do not remove files that are no indexes when given
 as index path

---
 core/ratarmountcore/SQLiteIndex.py | 31 ++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index fc7ec5f..0984a8f 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -1393,10 +1393,37 @@ class SQLiteIndex:
             self._loadedIndexFilePath = indexFilePath
         return self.index_is_loaded()
 
+    @staticmethod
+    def _is_removable_index(path: str) -> bool:
+        """Returns false for files that were not created by ratarmount, e.g., because of a mistyped index path."""
+        if '.index.sqlite' in os.path.basename(path):
+            return True
+
+        with open(path, 'rb') as file:
+            header = file.read(16)
+        if not header.strip(b'\0'):
+            # Interrupted index creations can leave empty files or files without the first page written.
+            return True
+        if header != b'SQLite format 3\0':
+            return False
+
+        try:
+            with contextlib.closing(
+                sqlite3.connect(f"file:{urllib.parse.quote(path)}?mode=ro", uri=True)
+            ) as connection:
+                tables = get_sqlite_tables(connection)
+        except sqlite3.Error:
+            return True
+        return not tables or not {'files', 'filestmp', 'parentfolders', 'versions'}.isdisjoint(tables)
+
     def _remove_invalid_index(self, indexFilePath: str) -> None:
         try:
-            if not self.readOnly and '://' not in indexFilePath:
-                os.remove(indexFilePath)
+            if self.readOnly or '://' in indexFilePath:
+                return
+            if not self._is_removable_index(indexFilePath):
+                logger.warning("Will not remove a file that does not look like an index: %s", indexFilePath)
+                return
+            os.remove(indexFilePath)
         except OSError:
             logger.warning(
                 "Failed to remove corrupted old cached index file: %s",
-- 
2.43.0


From f07cc5e36d83fd8a2f578cdbf1ac1e929af05afc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:40 +0000
Subject: [PATCH 29/92] fix: Truncated indexes were accepted when no whole page
 was missing

---
 core/ratarmountcore/SQLiteIndex.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 0984a8f..3ca943d 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -1286,6 +1286,12 @@ class SQLiteIndex:
             pass
 
         try:
+            # Sqlite itself only notices when whole pages are missing and fills up partial pages with zeros.
+            pageCount = self.sqlConnection.execute('PRAGMA page_count;').fetchone()[0]
+            pageSize = self.sqlConnection.execute('PRAGMA page_size;').fetchone()[0]
+            if os.path.getsize(temporaryIndexFilePath) < pageCount * pageSize:
+                raise InvalidIndexError("SQLite index is truncated")
+
             # Check indexes created with bugged bz2 decoder (bug existed when I did not store versions yet)
             if 'bzip2blocks' in tables and 'versions' not in tables:
                 raise InvalidIndexError(
-- 
2.43.0


From 68cadeb8f57bf1d5d764aa7c1f16fa54d6ba1c0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:40 +0000
Subject: [PATCH 30/92] fix: An invalid compressed index was used again for the
 other index locations

---
 core/ratarmountcore/SQLiteIndex.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 3ca943d..7b0e5fb 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -1204,6 +1204,9 @@ class SQLiteIndex:
 
         # Download and/or extract the file to a temporary file if necessary.
 
+        # Might still be set because of another index path that was found to be invalid after decompressing it.
+        self._temporaryIndexFile = None
+
         # Strip a single file:// prefix, not any more because URL chaining is supported by fsspec,
         # to avoid useless copies to the temporary directory.
         if indexFilePath.count('://') == 1:
-- 
2.43.0


From 7affc87c6162e9b7d16206b35976a834914c07ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:40 +0000
Subject: [PATCH 31/92] fix: Indexes of archives that had grown were used for
 formats other than TAR

---
 core/ratarmountcore/SQLiteIndex.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 7b0e5fb..413605b 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -543,10 +543,11 @@ class SQLiteIndex:
         if (
             hasattr(archiveStats, 'st_size')
             and 'st_size' in storedStats
-            and archiveStats.st_size < storedStats['st_size']
+            and archiveStats.st_size != storedStats['st_size']
+            and not stat.S_ISDIR(archiveStats.st_mode)
         ):
             raise InvalidIndexError(
-                f"Archive for this SQLite index has shrunk in size from "
+                f"Archive for this SQLite index has changed in size from "
                 f"{storedStats['st_size']} to {archiveStats.st_size}"
             )
 
-- 
2.43.0


From 350e941a28c6da565710549b27550a2c3e7a41a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:31:41 +0000
Subject: [PATCH 32/92] fix: Without any usable index location, archives were
 opened by a fallback backend instead of with an index in memory

---
 core/ratarmountcore/SQLiteIndex.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 413605b..e933552 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -383,17 +383,18 @@ class SQLiteIndex:
                 if SQLiteIndex._path_can_be_used_for_sqlite(indexPath):
                     self.indexFilePath, self.sqlConnection = SQLiteIndex._create_sql_db(indexPath)
                     break
+            else:
+                logger.warning(
+                    "Could not find any existing index or writable location for an index in %s. "
+                    "Will create it in memory.",
+                    self.possibleIndexFilePaths,
+                )
+                self.indexFilePath, self.sqlConnection = SQLiteIndex._create_sql_db(':memory:')
         else:
             if self.preferMemory:
                 logger.debug("Create new index in memory because memory is to be preferred, e.g., for small archives.")
             self.indexFilePath, self.sqlConnection = SQLiteIndex._create_sql_db(':memory:')
 
-        if not self.index_is_loaded():
-            raise InvalidIndexError(
-                "Could not find any existing index or writable location for an index in "
-                + str(self.possibleIndexFilePaths)
-            )
-
     def __enter__(self):
         return self
 
-- 
2.43.0


From a7632af2d50765d25793ea4e73b567b29e50eccc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:09 +0000
Subject: [PATCH 33/92] fix: survive interruptions and failed writes while an
 index is created or updated

Databases are marked as incomplete until everything including the metadata has been written, changes of existing
indexes are journaled, and the index is created in memory if writing it to its location fails.
---
 core/ratarmountcore/SQLiteIndex.py            | 108 +++++++++++++++---
 .../mountsource/SQLiteIndexMountSource.py     |  28 ++++-
 .../ratarmountcore/mountsource/formats/tar.py |  24 ++--
 3 files changed, 128 insertions(+), 32 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index e933552..17816cd 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -212,6 +212,8 @@ class SQLiteIndex:
     # are not fully tested and probably have other issues or simply are not supported by most archive formats.
     FROM_REGULAR_FILES = 'FROM "files" WHERE (mode & 0xF000) == 0x8000 AND offsetheader IS NOT NULL'
 
+    _INCOMPLETE_USER_VERSION = 1
+
     def __init__(
         self,
         indexFilePath: Optional[str] = None,
@@ -416,6 +418,8 @@ class SQLiteIndex:
             except sqlite3.ProgrammingError:
                 # Ignore "Cannot operate on a closed database."
                 pass
+            except sqlite3.OperationalError as exception:
+                logger.warning("Could not write all changes to the index: %s", exception)
             self.sqlConnection = None
 
         self._set_index_file_path(None)
@@ -458,6 +462,8 @@ class SQLiteIndex:
                     versions += [make_version_row(moduleName, moduleVersion)]
 
             connection.executemany('INSERT OR REPLACE INTO "versions" VALUES (?,?,?,?,?)', versions)
+        except sqlite3.Error:
+            raise
         except Exception as exception:
             logger.error("There was an error when adding version information.")
             logger.info("Exception: %s", exception, exc_info=logger.isEnabledFor(logging.DEBUG))
@@ -473,6 +479,8 @@ class SQLiteIndex:
                 {attr: getattr(tarStats, attr) for attr in dir(tarStats) if attr.startswith('st_')}
             )
             self.store_metadata_key_value("tarstats", serializedTarStats)
+        except sqlite3.Error:
+            raise
         except Exception as exception:
             logger.error("There was an error when adding file metadata.")
             logger.error("Automatic detection of changed TAR files during index loading might not work.")
@@ -482,6 +490,8 @@ class SQLiteIndex:
         connection = self.get_connection()
         try:
             connection.execute('INSERT OR REPLACE INTO "metadata" VALUES (?,?)', (key, value))
+        except sqlite3.Error:
+            raise
         except Exception as exception:
             logger.error("There was an error when adding argument metadata.")
             logger.error("Automatic detection of changed arguments files during index loading might not work.")
@@ -610,17 +620,29 @@ class SQLiteIndex:
 
         try:
             connection = SQLiteIndex._open_sql_db(path)
+            SQLiteIndex._set_complete(connection, False)
             connection.executescript('CREATE TABLE "files" ( "path" VARCHAR(65535) NOT NULL );')
             connection.commit()
             connection.close()
+            os.remove(path)
             return True
-        except sqlite3.OperationalError:
+        except (OSError, sqlite3.Error):
             logger.debug("Could not create SQLite database at: %s", path, exc_info=True)
         finally:
             unchecked_remove(path)
 
         return False
 
+    @staticmethod
+    def _set_complete(connection: sqlite3.Connection, complete: bool) -> None:
+        """
+        Marks databases as being incomplete while they are written to, to be able to recognize interrupted creations.
+        The user version resides in the database header on the first page, i.e., each change of it is one single write.
+        """
+        connection.commit()
+        connection.execute(f"PRAGMA user_version = {0 if complete else SQLiteIndex._INCOMPLETE_USER_VERSION};")
+        connection.commit()
+
     @staticmethod
     def _open_sql_db(path: AnyStr, **kwargs) -> sqlite3.Connection:
         # Even when given a relative path, sqlite3.connect seems to access the path absolute instead of from the
@@ -664,6 +686,7 @@ class SQLiteIndex:
                 "conflict with our database schema. Please specify --recreate-index to overwrite the existing database."
             )
 
+        SQLiteIndex._set_complete(sqlConnection, False)
         sqlConnection.executescript(SQLiteIndex._CREATE_TABLES)
 
         return indexFilePath, sqlConnection
@@ -752,6 +775,7 @@ class SQLiteIndex:
         t0 = timer()
 
         # Ensure that all tables exist. This is necessary for TARs detected as being appended to.
+        SQLiteIndex._set_complete(self.get_connection(), False)
         self.get_connection().executescript(SQLiteIndex._CREATE_TABLES)
         create_index()
         self.finalize()
@@ -777,21 +801,57 @@ class SQLiteIndex:
         if isFileObject is None:
             isFileObject = self.archiveFilePath is None
 
+        def create():
+            self.create_index_timed(create_index)
+            if self.index_is_loaded():
+                if callable(store_metadata):
+                    store_metadata()
+                self.mark_as_complete()
+
         # Open new database when we didn't find an existing one.
         # Simply open in memory without an error even if writeIndex is True but when no indication
         # for an index file location has been given.
-        if writeIndex and (self._requestedIndexFilePath or not isFileObject):
-            self.open_writable()
-        else:
+        try:
+            if writeIndex and (self._requestedIndexFilePath or not isFileObject):
+                self.open_writable()
+            else:
+                self.indexFilePath, self.sqlConnection = SQLiteIndex._create_sql_db(':memory:')
+            create()
+        except sqlite3.Error as exception:
+            if self.indexFilePath in (None, ':memory:') and not self.possibleIndexFilePaths:
+                raise
+            logger.warning(
+                "Could not write the index to %s because of: %s. Will create it in memory.",
+                self.indexFilePath,
+                exception,
+                exc_info=logger.isEnabledFor(logging.DEBUG),
+            )
+            if self.indexFilePath and self.indexFilePath != ':memory:':
+                unchecked_remove(self.indexFilePath)
+            self.keep_in_memory()
             self.indexFilePath, self.sqlConnection = SQLiteIndex._create_sql_db(':memory:')
-
-        self.create_index_timed(create_index)
+            create()
 
         if self.index_is_loaded():
-            if callable(store_metadata):
-                store_metadata()
             self.reload_index_read_only()
 
+    def mark_as_complete(self) -> None:
+        SQLiteIndex._set_complete(self.get_connection(), True)
+
+    def keep_in_memory(self) -> None:
+        """Closes an index that could not be written to and causes the next one to be kept in memory."""
+        if self.sqlConnection:
+            with contextlib.suppress(sqlite3.Error):
+                self.sqlConnection.close()
+            self.sqlConnection = None
+        self._set_index_file_path(None)
+        self.possibleIndexFilePaths = []
+        self._reset_insertion_state()
+
+    def _reset_insertion_state(self) -> None:
+        self.parentFolderCache = []
+        self._insertedRowCount = 0
+
     def file_count(self) -> int:
         return self.get_connection().execute('SELECT COUNT(*) FROM "files";').fetchone()[0]
 
@@ -1161,7 +1221,7 @@ class SQLiteIndex:
 
         try:
             self.sqlConnection.execute('SELECT * FROM "files" WHERE 0 == 1;')
-        except sqlite3.OperationalError:
+        except sqlite3.DatabaseError:
             self.sqlConnection = None
             return False
 
@@ -1280,17 +1340,17 @@ class SQLiteIndex:
             self.sqlConnection = SQLiteIndex._open_sql_db(f"file:{uriPath}?mode=ro", uri=True, check_same_thread=False)
         else:
             self.sqlConnection = SQLiteIndex._open_sql_db(temporaryIndexFilePath)
-        tables = get_sqlite_tables(self.sqlConnection)
-        versions = None
         try:
-            rows = self.sqlConnection.execute('SELECT * FROM versions;')
-            versions = {}
-            for row in rows:
-                versions[row[0]] = (row[2], row[3], row[4])
-        except sqlite3.OperationalError:
-            pass
+            tables = get_sqlite_tables(self.sqlConnection)
+            versions = None
+            try:
+                rows = self.sqlConnection.execute('SELECT * FROM versions;')
+                versions = {}
+                for row in rows:
+                    versions[row[0]] = (row[2], row[3], row[4])
+            except sqlite3.OperationalError:
+                pass
 
-        try:
             # Sqlite itself only notices when whole pages are missing and fills up partial pages with zeros.
             pageCount = self.sqlConnection.execute('PRAGMA page_count;').fetchone()[0]
             pageSize = self.sqlConnection.execute('PRAGMA page_size;').fetchone()[0]
@@ -1310,7 +1370,12 @@ class SQLiteIndex:
             if 'files' not in tables:
                 raise InvalidIndexError("SQLite index is empty")
 
-            if 'filestmp' in tables or 'parentfolders' in tables:
+            userVersion = self.sqlConnection.execute('PRAGMA user_version;').fetchone()[0]
+            if (
+                'filestmp' in tables
+                or 'parentfolders' in tables
+                or userVersion == SQLiteIndex._INCOMPLETE_USER_VERSION
+            ):
                 raise InvalidIndexError("SQLite index is incomplete")
 
             # Check for pre-sparse support indexes
@@ -1324,6 +1389,10 @@ class SQLiteIndex:
                 logger.warning("The index will also miss data about multiple versions of a file.")
                 logger.warning("Please recreate the index if you have problems with those.")
 
+            if not self.readOnly:
+                # In contrast to the creation of new indexes, changes of existing ones should survive interruptions.
+                self.sqlConnection.execute('PRAGMA JOURNAL_MODE = DELETE;').fetchone()
+
             if 'metadata' in tables:
                 metadata = dict(self.sqlConnection.execute('SELECT * FROM metadata;'))
                 if checkMetadata:
@@ -1451,6 +1520,7 @@ class SQLiteIndex:
         if self._loadedIndexFilePath:
             self._remove_invalid_index(self._loadedIndexFilePath)
             self._loadedIndexFilePath = None
+        self._reset_insertion_state()
 
     def clear_compression_offsets(self):
         for table in ['bzip2blocks', 'gzipindex', 'gzipindexes', 'gztoolindex', 'zstdblocks']:
diff --git a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
index 43c7be6..a51a501 100644
--- a/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
+++ b/core/ratarmountcore/mountsource/SQLiteIndexMountSource.py
@@ -1,10 +1,12 @@
 # pylint: disable=abstract-method
 
 import builtins
+import contextlib
 import json
 import logging
 import re
 import shutil
+import sqlite3
 import tempfile
 from collections.abc import Iterable
 from typing import IO, Any, Callable, Optional, Union
@@ -222,12 +224,30 @@ class SQLiteIndexMountSource(MountSource):
             # index_is_loaded checks for completed 'files' (stats etc.) table.
             # It does not check regarding xattrs completenes. We need to check whether some hashes
             # should still be computed.
-            self._compute_and_store_hashes()
-            callable_store_metadata()
-            self.index.reload_index_read_only()
-            return
+            try:
+                self._compute_and_store_hashes()
+                callable_store_metadata()
+            except sqlite3.Error as exception:
+                # The index itself is usable even if, e.g., it resides on a read-only or full file system.
+                logger.warning(
+                    "Could not update the index: %s", exception, exc_info=logger.isEnabledFor(logging.DEBUG)
+                )
+            try:
+                self.index.reload_index_read_only()
+                return
+            except sqlite3.Error as exception:
+                logger.warning("Could not reopen the index because of: %s. Will create it in memory.", exception)
+                self.index.keep_in_memory()
+
+        # The index creation is repeated if the index could not be written to its location.
+        fileObject = getattr(self, 'tarFileObject', None) or getattr(self, 'fileObject', None)
+        position: Optional[int] = None
+        with contextlib.suppress(AttributeError, OSError):
+            position = fileObject.tell()
 
         def create_index_and_post_process(index=self.index):
+            if position is not None and fileObject.tell() != position:
+                fileObject.seek(position)
             create_index()
             # Finalize the 'files' table from 'filestmp' and 'parentfolders' so that
             # the by magnitudes costlier checksumming can be interrupted and resumed.
diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 9aae3f2..8a7e571 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -711,18 +711,24 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                 appendedPartAsFile = StenciledFile(
                     fileStencils=[(self.tarFileObject, pastEndOffset, archiveSize - pastEndOffset)]
                 )
-                self.index.create_index_timed(
-                    create_index=lambda: self._create_index(appendedPartAsFile, streamOffset=pastEndOffset)
-                )
+                try:
+                    self.index.create_index_timed(
+                        create_index=lambda: self._create_index(appendedPartAsFile, streamOffset=pastEndOffset)
+                    )
 
-                self._compute_and_store_hashes()
-                self.index.drop_metadata()
-                self._store_metadata()
-                self.index.reload_index_read_only()
-                return
+                    self._compute_and_store_hashes()
+                    self.index.drop_metadata()
+                    self._store_metadata()
+                    self.index.mark_as_complete()
+                    self.index.reload_index_read_only()
+                    return
+                except sqlite3.Error as exception:
+                    logger.warning("Could not extend the existing index because of: %s. Will recreate it.", exception)
+            else:
+                logger.warning("The loaded index does not match the archive. Will recreate it.")
 
             self.index.discard()
-            logger.warning("The loaded index does not match the archive. Will recreate it.")
+            self.tarFileObject.seek(0)
 
         # At this point, self.index.index_is_loaded() should return false because either it was false already
         # or the preemptive return was triggered above or the index was closed at the end of the above branch!
-- 
2.43.0


From 16de197aea36ed20bad3cf7b4c681b807c9e6df4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:56 +0000
Subject: [PATCH 34/92] fix: Versions folders of missing files raised
 assertions and missing folder versions had contents

---
 core/ratarmountcore/mountsource/compositing/versioning.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index b5c0aa9..6850fb8 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -58,7 +58,7 @@ class FileVersionLayer(MountSource):
         filePath = ''
         pathIsSpecialVersionsFolder = False
         fileVersion = None  # Not valid if None or parentIsVersions is True
-        for part in filePathParts:
+        for i, part in enumerate(filePathParts):
             # Skip over the exact version specified
             if pathIsSpecialVersionsFolder:
                 try:
@@ -66,6 +66,10 @@ class FileVersionLayer(MountSource):
                     assert str(fileVersion) == part
                 except Exception:
                     return None
+                # The specified version must exist and for subpaths it must also be a folder.
+                fileInfo = self.mountSource.lookup(filePath, fileVersion=fileVersion)
+                if not fileInfo or (i + 1 < len(filePathParts) and not stat.S_ISDIR(fileInfo.mode)):
+                    return None
                 pathIsSpecialVersionsFolder = False
                 continue
 
@@ -81,6 +85,8 @@ class FileVersionLayer(MountSource):
                 pathIsSpecialVersionsFolder = True
                 fileVersion = 0
                 filePath = tmpFilePath[: -len('.versions')]
+                if not self.mountSource.lookup(filePath):
+                    return None
                 continue
 
             # Parent path does not exist and is not a versions path, so any subpaths also won't exist either
-- 
2.43.0


From aa5971b67d17f965772e804dfd7ee64f5fc18f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:09 +0000
Subject: [PATCH 35/92] fix: Older versions that are hard links were shown
 without file type and contents

---
 .../mountsource/compositing/versioning.py        | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/versioning.py b/core/ratarmountcore/mountsource/compositing/versioning.py
index 6850fb8..6a3f491 100644
--- a/core/ratarmountcore/mountsource/compositing/versioning.py
+++ b/core/ratarmountcore/mountsource/compositing/versioning.py
@@ -104,15 +104,16 @@ class FileVersionLayer(MountSource):
         return bool(not stat.S_ISREG(fileInfo.mode) and not stat.S_ISLNK(fileInfo.mode) and fileInfo.linkname)
 
     @staticmethod
-    def _resolve_hard_links(mountSource: MountSource, path: str) -> Optional[FileInfo]:
+    def _resolve_hard_links(mountSource: MountSource, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
         """path : Simple path. Should contain no special versioning folders!"""
 
-        fileInfo = mountSource.lookup(path)
+        fileInfo = mountSource.lookup(path, fileVersion=fileVersion)
         if not fileInfo:
             return None
 
         resolvedPath = '/' + fileInfo.linkname.lstrip('/') if FileVersionLayer._is_hard_link(fileInfo) else None
-        fileVersion = 0
+        # For an explicitly specified version, earlier versions are those with lower numbers.
+        fileVersionStep = 1 if fileVersion == 0 else -1
         hardLinkCount = 0
 
         while resolvedPath and hardLinkCount < 128:  # For comparison, the maximum symbolic link chain in Linux is 40.
@@ -123,7 +124,7 @@ class FileVersionLayer(MountSource):
 
             resolvedPath = os.path.join(mountPoint, resolvedPath.lstrip('/'))
 
-            if resolvedPath != path:  # noqa: SIM108
+            if resolvedPath != path:
                 # The file version is only of importance to resolve self-references.
                 # It seems undecidable to me whether to return the given fileVersion or 0 here.
                 # Returning 0 would feel more correct because the we switched to another file and the version
@@ -135,11 +136,14 @@ class FileVersionLayer(MountSource):
                 # version per path.
                 # TODO Is such a hardlink cycle even possible?!
                 fileVersion = 0
+                fileVersionStep = 1
             else:
                 # If file is referencing itself, try to access earlier version of it.
                 # The check for fileVersion against the total number of available file versions is omitted because
                 # that check is done implicitly inside the mount sources lookup method!
-                fileVersion = fileVersion + 1 if fileVersion >= 0 else fileVersion - 1
+                fileVersion += fileVersionStep
+                if fileVersion == 0:
+                    return None
 
             path = resolvedPath
             fileInfo = mountSource.lookup(path, fileVersion)
@@ -229,7 +233,7 @@ class FileVersionLayer(MountSource):
             # fmt: on
 
         # 3.) At this point the request is for an actually older version of a file or folder
-        fileInfo = self.mountSource.lookup(path, fileVersion=fileVersion)
+        fileInfo = FileVersionLayer._resolve_hard_links(self.mountSource, path, fileVersion)
         if fileInfo:
             fileInfo.userdata.append(FileType.FILE)
         return fileInfo
-- 
2.43.0


From e25e1be349dad07370987e6492f8ff1027a5b6ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:56:39 +0000
Subject: [PATCH 36/92] fix: Version numbers were ignored or off by one for
 several sources without repeated paths

---
 .../mountsource/compositing/removeprefix.py               | 7 ++++++-
 core/ratarmountcore/mountsource/compositing/singlefile.py | 3 +++
 core/ratarmountcore/mountsource/formats/ext4.py           | 5 ++++-
 core/ratarmountcore/mountsource/formats/fat.py            | 5 ++++-
 core/ratarmountcore/mountsource/formats/fsspec.py         | 5 ++++-
 core/ratarmountcore/mountsource/formats/git.py            | 5 ++++-
 core/ratarmountcore/mountsource/formats/rar.py            | 8 +++++---
 core/ratarmountcore/mountsource/formats/sqlar.py          | 3 +++
 8 files changed, 33 insertions(+), 8 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/removeprefix.py b/core/ratarmountcore/mountsource/compositing/removeprefix.py
index 53a7978..ed0a820 100644
--- a/core/ratarmountcore/mountsource/compositing/removeprefix.py
+++ b/core/ratarmountcore/mountsource/compositing/removeprefix.py
@@ -44,7 +44,12 @@ class RemovePrefixMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
-        return self._parse_path(path, self.mountSource.lookup, lambda _: self._directory_info.clone(), None)
+        return self._parse_path(
+            path,
+            lambda subpath: self.mountSource.lookup(subpath, fileVersion),
+            lambda _: self._directory_info.clone() if fileVersion in [0, 1] else None,
+            None,
+        )
 
     @overrides(MountSource)
     def versions(self, path: str) -> int:
diff --git a/core/ratarmountcore/mountsource/compositing/singlefile.py b/core/ratarmountcore/mountsource/compositing/singlefile.py
index d65ce36..d823d34 100644
--- a/core/ratarmountcore/mountsource/compositing/singlefile.py
+++ b/core/ratarmountcore/mountsource/compositing/singlefile.py
@@ -138,6 +138,9 @@ class SingleFileMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        if fileVersion not in [0, 1]:
+            return None
+
         if not path or path == '/':
             return self._create_file_info(size=0, isdir=True)
         if path.strip('/') == self.path:
diff --git a/core/ratarmountcore/mountsource/formats/ext4.py b/core/ratarmountcore/mountsource/formats/ext4.py
index 15bb35a..abe9b26 100644
--- a/core/ratarmountcore/mountsource/formats/ext4.py
+++ b/core/ratarmountcore/mountsource/formats/ext4.py
@@ -104,6 +104,9 @@ class EXT4MountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        if fileVersion not in [0, 1]:
+            return None
+
         try:
             return self._convert_ext4_directory_entry_to_file_info(self.fileSystem.inode_at(path))
         except FileNotFoundError:
@@ -112,7 +115,7 @@ class EXT4MountSource(MountSource):
 
     @overrides(MountSource)
     def versions(self, path: str) -> int:
-        return 1
+        return 1 if self.exists(path) else 0
 
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
diff --git a/core/ratarmountcore/mountsource/formats/fat.py b/core/ratarmountcore/mountsource/formats/fat.py
index f67376b..4d98b50 100644
--- a/core/ratarmountcore/mountsource/formats/fat.py
+++ b/core/ratarmountcore/mountsource/formats/fat.py
@@ -109,6 +109,9 @@ class FATMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        if fileVersion not in [0, 1]:
+            return None
+
         try:
             entry = self.fileSystem.root_dir.get_entry(path)
         except PyFATException as exception:
@@ -119,7 +122,7 @@ class FATMountSource(MountSource):
 
     @overrides(MountSource)
     def versions(self, path: str) -> int:
-        return 1
+        return 1 if self.exists(path) else 0
 
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
diff --git a/core/ratarmountcore/mountsource/formats/fsspec.py b/core/ratarmountcore/mountsource/formats/fsspec.py
index 1cb7eb2..583df36 100644
--- a/core/ratarmountcore/mountsource/formats/fsspec.py
+++ b/core/ratarmountcore/mountsource/formats/fsspec.py
@@ -271,6 +271,9 @@ class FSSpecMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        if fileVersion not in [0, 1]:
+            return None
+
         if isinstance(self.fileSystem, fsspec.implementations.http.HTTPFileSystem):
             return self._lookup_http(path)
 
@@ -307,7 +310,7 @@ class FSSpecMountSource(MountSource):
 
     @overrides(MountSource)
     def versions(self, path: str) -> int:
-        return 1
+        return 1 if self.exists(path) else 0
 
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
diff --git a/core/ratarmountcore/mountsource/formats/git.py b/core/ratarmountcore/mountsource/formats/git.py
index 683b0ed..d060762 100644
--- a/core/ratarmountcore/mountsource/formats/git.py
+++ b/core/ratarmountcore/mountsource/formats/git.py
@@ -109,12 +109,15 @@ class GitMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        if fileVersion not in [0, 1]:
+            return None
+
         obj = self._look_up_path(path)
         return None if obj is None else self._convert_to_file_info(obj, path)
 
     @overrides(MountSource)
     def versions(self, path: str) -> int:
-        return 1
+        return 1 if self.exists(path) else 0
 
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
diff --git a/core/ratarmountcore/mountsource/formats/rar.py b/core/ratarmountcore/mountsource/formats/rar.py
index 2c54b45..3a8b6ee 100644
--- a/core/ratarmountcore/mountsource/formats/rar.py
+++ b/core/ratarmountcore/mountsource/formats/rar.py
@@ -178,7 +178,8 @@ class RarMountSource(MountSource):
             normalizedPath.rstrip('/').startswith(pathAsDir) for normalizedPath, info in self.files.items()
         ):
             # fmt: off
-            infoList.append(
+            infoList.insert(
+                0,
                 FileInfo(
                     size     = 0,
                     mtime    = time.time(),
@@ -187,7 +188,7 @@ class RarMountSource(MountSource):
                     uid      = get_userid(),
                     gid      = get_groupid(),
                     userdata = [None],
-                )
+                ),
             )
             # fmt: on
 
@@ -196,7 +197,8 @@ class RarMountSource(MountSource):
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
         infos = self._lookups(path)
-        return infos[fileVersion] if -len(infos) <= fileVersion < len(infos) else None
+        index = fileVersion - 1 if fileVersion > 0 else len(infos) - 1 + fileVersion
+        return infos[index] if 0 <= index < len(infos) else None
 
     @overrides(MountSource)
     def versions(self, path: str) -> int:
diff --git a/core/ratarmountcore/mountsource/formats/sqlar.py b/core/ratarmountcore/mountsource/formats/sqlar.py
index 1db80b4..69d3ed9 100644
--- a/core/ratarmountcore/mountsource/formats/sqlar.py
+++ b/core/ratarmountcore/mountsource/formats/sqlar.py
@@ -331,6 +331,9 @@ class SQLARMountSource(MountSource):
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
+        if fileVersion not in [0, 1]:
+            return None
+
         if path == "/":
             return create_root_file_info([-1])
 
-- 
2.43.0


From db619a90ddcb14ea95ec2227060bc5695c05f523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:23 +0000
Subject: [PATCH 37/92] fix: Missing folders were listed as empty for RAR and
 SQLAR archives

---
 core/ratarmountcore/mountsource/formats/rar.py   | 6 ++++++
 core/ratarmountcore/mountsource/formats/sqlar.py | 9 +++++++++
 2 files changed, 15 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/rar.py b/core/ratarmountcore/mountsource/formats/rar.py
index 3a8b6ee..cc232e2 100644
--- a/core/ratarmountcore/mountsource/formats/rar.py
+++ b/core/ratarmountcore/mountsource/formats/rar.py
@@ -137,6 +137,9 @@ class RarMountSource(MountSource):
 
     @overrides(MountSource)
     def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
+        if not self.is_dir(path):
+            return None
+
         path = path.strip('/')
         if path:
             path += '/'
@@ -150,6 +153,9 @@ class RarMountSource(MountSource):
 
     @overrides(MountSource)
     def list_mode(self, path: str) -> Optional[Union[Iterable[str], dict[str, int]]]:
+        if not self.is_dir(path):
+            return None
+
         path = path.strip('/')
         if path:
             path += '/'
diff --git a/core/ratarmountcore/mountsource/formats/sqlar.py b/core/ratarmountcore/mountsource/formats/sqlar.py
index 69d3ed9..9e46877 100644
--- a/core/ratarmountcore/mountsource/formats/sqlar.py
+++ b/core/ratarmountcore/mountsource/formats/sqlar.py
@@ -286,6 +286,9 @@ class SQLARMountSource(MountSource):
         if not self._files:
             return None
 
+        if not self.is_dir(path):
+            return None
+
         path = path.lstrip('/')
         if path and not path.endswith('/'):
             path = path + '/'
@@ -305,6 +308,9 @@ class SQLARMountSource(MountSource):
         if self._files:
             return self._list_names(path)
 
+        if not self.is_dir(path):
+            return None
+
         prefix = self._get_prefix(path)
         return {
             name: SQLARMountSource._convert_to_file_info(rowid, mode, mtime, size, linkname)
@@ -320,6 +326,9 @@ class SQLARMountSource(MountSource):
         if self._files:
             return self._list_names(path)
 
+        if not self.is_dir(path):
+            return None
+
         prefix = self._get_prefix(path)
         return dict(
             self.connection.execute(
-- 
2.43.0


From cfb76e8f506917273a6be7765006255ee4b775f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:41 +0000
Subject: [PATCH 38/92] fix: Paths below files inside Git repositories showed
 the file

---
 core/ratarmountcore/mountsource/formats/git.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/git.py b/core/ratarmountcore/mountsource/formats/git.py
index d060762..3e7a66b 100644
--- a/core/ratarmountcore/mountsource/formats/git.py
+++ b/core/ratarmountcore/mountsource/formats/git.py
@@ -52,8 +52,8 @@ class GitMountSource(MountSource):
     def _look_up_path(self, path: str) -> Optional[Any]:
         tree: Any = self.tree
         for name in self.prefix.split("/") + path.split("/"):
-            if name and isinstance(tree, pygit2.Tree):
-                if name not in tree:
+            if name:
+                if not isinstance(tree, pygit2.Tree) or name not in tree:
                     return None
                 tree = tree[name]
         return tree
-- 
2.43.0


From f2c28271ef18029265291ba9a3b4bd7a9679aa80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:56 +0000
Subject: [PATCH 39/92] fix: Git sources showed the time of another commit and
 a missing default branch

---
 core/ratarmountcore/mountsource/formats/git.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/git.py b/core/ratarmountcore/mountsource/formats/git.py
index 3e7a66b..c07a5a5 100644
--- a/core/ratarmountcore/mountsource/formats/git.py
+++ b/core/ratarmountcore/mountsource/formats/git.py
@@ -30,12 +30,15 @@ class GitMountSource(MountSource):
         self.reference = reference or self._get_default_reference(self.repository)
         commit, reference = self.repository.resolve_refish(self.reference)  # type: ignore
         self.tree = commit.tree
-        self.commitTime = self.repository[self.repository.head.target].commit_time  # type: ignore
+        self.commitTime = commit.commit_time  # type: ignore
         self.prefix = ""
 
     @staticmethod
     def _get_default_reference(repository):
-        if 'init.defaultBranch' in repository.config:
+        if (
+            'init.defaultBranch' in repository.config
+            and repository.config['init.defaultBranch'] in repository.branches
+        ):
             return repository.config['init.defaultBranch']
 
         # Try to find checked out branch.
-- 
2.43.0


From 206548b8714aa8288afa150195dea0ca1e2a13ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 40/92] fix: Listing folders returned wrong link targets,
 paths, and types and failed when files were removed meanwhile

---
 .../mountsource/formats/folder.py             | 58 +++++++++++--------
 1 file changed, 34 insertions(+), 24 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/folder.py b/core/ratarmountcore/mountsource/formats/folder.py
index 198453c..77587a6 100644
--- a/core/ratarmountcore/mountsource/formats/folder.py
+++ b/core/ratarmountcore/mountsource/formats/folder.py
@@ -1,5 +1,7 @@
 import builtins
+import errno
 import os
+import posixpath
 import shutil
 import stat
 from collections.abc import Iterable
@@ -81,14 +83,14 @@ class FolderMountSource(MountSource):
         )
         # fmt: on
 
-    @staticmethod
-    def _dir_entry_to_file_info(dirEntry: os.DirEntry, path: str, realpath: str):
+    def _dir_entry_to_file_info(self, dirEntry: os.DirEntry, path: str) -> Optional[FileInfo]:
+        path = posixpath.join(path, os.fsdecode(dirEntry.name))
+        if dirEntry.is_symlink():
+            return self.lookup(path)
         try:
-            linkname = os.readlink(realpath) if dirEntry.is_symlink() else ""
-        except OSError:
-            linkname = ""
-
-        return FolderMountSource._stats_to_file_info(dirEntry.stat(follow_symlinks=False), linkname, path)
+            return FolderMountSource._stats_to_file_info(dirEntry.stat(follow_symlinks=False), path.lstrip('/'), "")
+        except FileNotFoundError:
+            return None  # May happen when the file has been removed in the meantime.
 
     @overrides(MountSource)
     def is_immutable(self) -> bool:
@@ -129,34 +131,37 @@ class FolderMountSource(MountSource):
 
     @overrides(MountSource)
     def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
-        realpath = self._realpath(path)
-        if not os.path.isdir(realpath):
+        if not self.is_dir(path):
             return None
 
         return {
-            os.fsdecode(dirEntry.name): FolderMountSource._dir_entry_to_file_info(dirEntry, path, realpath)
-            for dirEntry in os.scandir(realpath)
+            os.fsdecode(dirEntry.name): fileInfo
+            for dirEntry in os.scandir(self._realpath(path))
+            if (fileInfo := self._dir_entry_to_file_info(dirEntry, path))
         }
 
     @overrides(MountSource)
     def list_mode(self, path: str) -> Optional[Union[Iterable[str], dict[str, int]]]:
-        realpath = self._realpath(path)
-        if not os.path.isdir(realpath):
+        if not self.is_dir(path):
             return None
 
         # https://docs.python.org/3/library/os.html#os.scandir
         # > All os.DirEntry methods may perform a system call, but is_dir() and is_file() usually
         # > only require a system call for symbolic links; os.DirEntry.stat() always requires a
         # > system call on Unix but only requires one for symbolic links on Windows.
-        # Unfortunately, I am not sure whether it would be sufficient to build the file mode from these
-        # two getters. For now, I'd say that all the esoteric stuff is simply not supported.
-        def make_mode(dirEntry):
-            mode = stat.S_IFDIR if dirEntry.is_dir(follow_symlinks=False) else stat.S_IFREG
-            if dirEntry.is_symlink():
-                mode = stat.S_IFLNK
-            return mode
+        def get_mode(dirEntry) -> Optional[int]:
+            if dirEntry.is_dir(follow_symlinks=False):
+                return stat.S_IFDIR
+            if dirEntry.is_file(follow_symlinks=False):
+                return stat.S_IFREG
+            fileInfo = self._dir_entry_to_file_info(dirEntry, path)
+            return stat.S_IFMT(fileInfo.mode) if fileInfo else None
 
-        return {os.fsdecode(dirEntry.name): make_mode(dirEntry) for dirEntry in os.scandir(realpath)}
+        return {
+            os.fsdecode(dirEntry.name): mode
+            for dirEntry in os.scandir(self._realpath(path))
+            if (mode := get_mode(dirEntry)) is not None
+        }
 
     @overrides(MountSource)
     def versions(self, path: str) -> int:
@@ -180,9 +185,14 @@ class FolderMountSource(MountSource):
 
     @overrides(MountSource)
     def get_xattr(self, fileInfo: FileInfo, key: str) -> Optional[bytes]:
-        return (
-            os.getxattr(self.get_file_path(fileInfo), key, follow_symlinks=False) if hasattr(os, 'getxattr') else None
-        )
+        if not hasattr(os, 'getxattr'):
+            return None
+        try:
+            return os.getxattr(self.get_file_path(fileInfo), key, follow_symlinks=False)
+        except OSError as exception:
+            if exception.errno in (errno.ENODATA, errno.EOPNOTSUPP):
+                return None
+            raise
 
     @overrides(MountSource)
     def __exit__(self, exception_type, exception_value, exception_traceback):
-- 
2.43.0


From 523dff235340a59e3f8a843d75192a509efd0a9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:00:45 +0000
Subject: [PATCH 41/92] fix: Union mounts listed and cached entries of sources
 with lower precedence

---
 .../mountsource/compositing/union.py          | 20 +++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/union.py b/core/ratarmountcore/mountsource/compositing/union.py
index 73f56ed..05465e2 100644
--- a/core/ratarmountcore/mountsource/compositing/union.py
+++ b/core/ratarmountcore/mountsource/compositing/union.py
@@ -106,11 +106,8 @@ class UnionMountSource(MountSource):
         if not path.strip('/'):
             return self.rootFileInfo.clone()
 
-        if path in self.folderCache:
-            # This case might be triggered when path is a folder
-            cachedMountSources = self.folderCache[path]
-        elif self.folderCache and self.folderCacheDepth > 0 and path.startswith('/'):
-            # This should be the most common case, i.e., for regular files. Look up the parent folder in this case.
+        if self.folderCache and self.folderCacheDepth > 0 and path.startswith('/'):
+            # Look up the parent folder because the path itself may be a file in mount sources of higher precedence.
             parentFolder = '/'.join(path.split('/', self.folderCacheDepth + 1)[:-1])
             if not parentFolder:
                 parentFolder = '/'
@@ -152,9 +149,18 @@ class UnionMountSource(MountSource):
     def _list(self, path: str, onlyMode: bool):
         files: Optional[Union[set[str], dict[str, FileInfo], dict[str, int]]] = None
 
+        # Files hide folders with the same path inside mount sources with lower precedence.
+        if not self.is_dir(path):
+            return None
+
         for mountSource in reversed(self.mountSources):
             result = mountSource.list_mode(path) if onlyMode else mountSource.list(path)
 
+            if not onlyMode and isinstance(result, dict):
+                for fileInfo in result.values():
+                    if isinstance(fileInfo, FileInfo):
+                        fileInfo.userdata.append(mountSource)
+
             if files is None:
                 if isinstance(result, dict):
                     files = result
@@ -163,7 +169,9 @@ class UnionMountSource(MountSource):
 
             elif isinstance(result, dict):
                 if isinstance(files, dict):
-                    files.update(result)
+                    # The mount sources to the right have precedence.
+                    for name, value in result.items():
+                        files.setdefault(name, value)
                 else:
                     files = files.union(result.keys())
 
-- 
2.43.0


From 8e2a6024dbebc0d0b2782ddd7b787e53bcf78447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 42/92] fix: Setting file times with UTIME_NOW or UTIME_OMIT or
 on symbolic links in the write overlay

---
 ratarmount/WriteOverlay.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index c14ca4c..7bdf905 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -315,10 +315,26 @@ class WritableFolderMountSource(fuse.Operations):
     def utimens(self, path: str, times: Optional[tuple[int, int]] = None):
         """Argument "times" is a (atime, mtime) tuple. If "times" is None, use the current time."""
 
-        mtime = time.time() if times is None else times[1] / 1e9
-        ns = (int(mtime * 1e9), int(mtime * 1e9)) if times is None else times
+        # These special nanosecond values are forwarded by libfuse, see utimensat(2).
+        utimeNow = (1 << 30) - 1
+        utimeOmit = (1 << 30) - 2
 
-        self._set_file_metadata(path, lambda p: os.utime(p, ns=ns), {'mtime': mtime})
+        atimeNs, mtimeNs = (time.time_ns() if t == utimeNow else t for t in times or (utimeNow, utimeNow))
+
+        def apply_times(realPath: str):
+            stats = os.lstat(realPath)
+            ns = (
+                stats.st_atime_ns if atimeNs == utimeOmit else atimeNs,
+                stats.st_mtime_ns if mtimeNs == utimeOmit else mtimeNs,
+            )
+            os.utime(realPath, ns=ns, follow_symlinks=False)
+
+        if mtimeNs == utimeOmit:
+            if os.path.lexists(self._realpath(path)):
+                apply_times(self._realpath(path))
+            return
+
+        self._set_file_metadata(path, apply_times, {'mtime': mtimeNs / 1e9})
 
     @overrides(fuse.Operations)
     def rename(self, old: str, new: str):
-- 
2.43.0


From 3220906ff4f963f9f75b4bc77715438e169fdea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:37 +0000
Subject: [PATCH 43/92] fix: File system statistics of the write overlay were
 ignored

---
 ratarmount/FuseMount.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 91a5275..79b5315 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -901,8 +901,8 @@ class FuseMount(fuse.Operations):
             keys = ['f_bsize', 'f_frsize']
             result = self.writeOverlay.statfs(path).copy()
             result.update({key: value for key, value in self.mountSource.statfs().items() if key in keys})
-
-        result = self.mountSource.statfs()
+        else:
+            result = self.mountSource.statfs()
 
         # Use a relatively large minimum 256 KiB block size to direct filesystem users to use larger reads
         # because they have a relative large overhead because of the fusepy, libfuse, kernel FUSE, SQLite,
-- 
2.43.0


From 94ead532c9b3f5f32d8a037d2971162a682794cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 44/92] fix: Files opened for writing showed outdated contents
 after modifications via the write overlay

---
 ratarmount/FuseMount.py    | 24 +++++++++++++++++----
 ratarmount/WriteOverlay.py | 43 +++++++++++++++++++++++++++++++++++---
 2 files changed, 60 insertions(+), 7 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 79b5315..060f343 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -778,6 +778,9 @@ class FuseMount(fuse.Operations):
 
         fileInfo = self._lookup(path)
 
+        if self.writeOverlay and flags & os.O_TRUNC and flags & (os.O_WRONLY | os.O_RDWR):
+            return self._add_new_handle(self.writeOverlay.open(path, flags), flags)
+
         try:
             # If the flags indicate "open for modification", then still open it as read-only through the mount source
             # but store information to reopen it for write access on write calls.
@@ -807,6 +810,10 @@ class FuseMount(fuse.Operations):
     @overrides(fuse.Operations)
     def read(self, path: str, size: int, offset: int, fh) -> bytes:
         if fh in self.openedFiles:
+            # The file may have been modified by path or via another handle after having been opened.
+            if self.writeOverlay and self.writeOverlay.contains(path):
+                self._make_handle_writable(path, fh)
+
             openedFile = self._resolve_file_handle(fh)
             if isinstance(openedFile, int):
                 os.lseek(openedFile, offset, os.SEEK_SET)
@@ -838,6 +845,15 @@ class FuseMount(fuse.Operations):
     def _resolve_file_handle(self, fh):
         return self.openedFiles[fh][1]
 
+    def _make_handle_writable(self, path: str, fh: Optional[int]) -> None:
+        """Replaces a file object opened for modification with a handle to the file in the write overlay."""
+        if not self.writeOverlay or fh is None or fh not in self.openedFiles:
+            return
+        flags, openedFile = self.openedFiles[fh]
+        if not isinstance(openedFile, int) and (flags & (os.O_WRONLY | os.O_RDWR)):
+            self.openedFiles[fh] = (flags, self.writeOverlay.open(path, flags))
+            openedFile.close()
+
     @overrides(fuse.Operations)
     def create(self, path: str, mode: int, fi=None):
         if self.writeOverlay:
@@ -851,7 +867,9 @@ class FuseMount(fuse.Operations):
         if self._enableControlInterface and path.startswith(self._controlLayerPrefix):
             return 0  # Simply return success without doing anything.
         if self.writeOverlay:
-            return self.writeOverlay.truncate(path, length, fh)
+            self.writeOverlay.truncate(path, length, fh)
+            self._make_handle_writable(path, fh)
+            return 0
         raise fuse.FuseOSError(errno.EROFS)
 
     @overrides(fuse.Operations)
@@ -867,9 +885,7 @@ class FuseMount(fuse.Operations):
                     openedFile.seek(offset)
                 return openedFile.write(data)
 
-            if self.writeOverlay and not isinstance(openedFile, int) and (flags & (os.O_WRONLY | os.O_RDWR)):
-                openedFile.close()
-                self.openedFiles[fh] = (flags, self.writeOverlay.open(path, flags))
+            self._make_handle_writable(path, fh)
 
         if self.writeOverlay and self._is_write_overlay_handle(fh):
             return self.writeOverlay.write(path, data, offset, self._resolve_file_handle(fh))
diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 7bdf905..47bed86 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -156,9 +156,46 @@ class WritableFolderMountSource(fuse.Operations):
         """
         Creates parent folders for given path inside overlay folder if and only if they exist in the mount source.
         """
-        parentPath = self._split_path(path)[0]
-        if not os.path.exists(self._realpath(parentPath)) and self.mountSource.is_dir(parentPath):
-            os.makedirs(self._realpath(parentPath), exist_ok=True)
+        parentPath = self._split_path(path)[0] or '/'
+        parentInfo = self.mountSource.lookup(parentPath)
+        if parentInfo is None or not stat.S_ISDIR(parentInfo.mode):
+            return
+
+        # Files in the overlay folder would not become visible below recursively mounted archives.
+        if self.mountSource.get_mount_source(parentInfo)[0].strip('/'):
+            raise fuse.FuseOSError(errno.EROFS)
+
+        if parentPath != '/' and not os.path.exists(self._realpath(parentPath)):
+            self._ensure_parent_exists(parentPath)
+            # The created folder will hide the one in the mount source, therefore keep its metadata.
+            self._keep_metadata(parentPath)
+            os.mkdir(self._realpath(parentPath))
+
+    @contextlib.contextmanager
+    def _temporary_path(self, path: str):
+        """
+        Yields a path inside the overlay folder that is not visible in the mount point and moves it to the real path
+        belonging to the given path if there was no error, so that there never are incomplete files.
+        """
+        temporaryPath = self._realpath(self.hiddenDatabaseName + self.temporaryFileSuffix)
+        if os.path.lexists(temporaryPath):
+            os.unlink(temporaryPath)
+        try:
+            yield temporaryPath
+            os.replace(temporaryPath, self._realpath(path))
+        finally:
+            if os.path.lexists(temporaryPath):
+                os.unlink(temporaryPath)
+
+    def _copy_to_overlay(self, fileInfo: FileInfo, path: str):
+        with self._temporary_path(path) as temporaryPath:
+            if stat.S_ISLNK(fileInfo.mode):
+                os.symlink(fileInfo.linkname, temporaryPath)
+                return
+
+            with self.mountSource.open(fileInfo) as sourceObject, open(temporaryPath, 'wb') as targetObject:
+                shutil.copyfileobj(sourceObject, targetObject)
+            os.chmod(temporaryPath, stat.S_IMODE(fileInfo.mode) | stat.S_IRUSR | stat.S_IWUSR)
 
     def _ensure_file_is_modifiable(self, path):
         self._ensure_parent_exists(path)
-- 
2.43.0


From 719c6aa67935a36c1cab29e941381cef467d6e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 45/92] fix: Metadata in the write overlay was not applied to
 files below nested mount points

---
 ratarmount/FuseMount.py | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 060f343..67a6704 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -666,12 +666,10 @@ class FuseMount(fuse.Operations):
 
         # Request exact metadata from write overlay, e.g., if the actual file in the folder
         # does not support permission changes
-        result = self.mountSource.get_mount_source(fileInfo)
-        subMountPoint = result[0]
         # TODO Note that if the path contains special .version versioning, then it will most likely fail
         #      to find the path in the write overlay, which is problematic for things like foo.versions/0.
         #      Would be really helpful if the file info would contain the actual path and name, too :/
-        return self.writeOverlay.update_file_info(path[len(subMountPoint) :], fileInfo)
+        return self.writeOverlay.update_file_info(path, fileInfo)
 
     @staticmethod
     def _redirect_output(name: str, file: IO[str]):
-- 
2.43.0


From dc2e9559e50246c5c9c4b825193415146d1763bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:38 +0000
Subject: [PATCH 46/92] fix: Files below symbolic links inside folders were
 reachable although they are not listed

---
 .../mountsource/formats/folder.py             | 21 +++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/folder.py b/core/ratarmountcore/mountsource/formats/folder.py
index 77587a6..f3ed68b 100644
--- a/core/ratarmountcore/mountsource/formats/folder.py
+++ b/core/ratarmountcore/mountsource/formats/folder.py
@@ -96,9 +96,22 @@ class FolderMountSource(MountSource):
     def is_immutable(self) -> bool:
         return False
 
+    def _points_outside(self, path: str, linkname: str) -> bool:
+        return not os.path.isabs(linkname) and max_up_count(linkname) > path.strip('/').count('/')
+
+    def _is_below_link(self, path: str) -> bool:
+        """Return true if one of the parent folders is a symbolic link, which is shown as such instead of a folder."""
+        parts = path.strip('/').split('/')
+        for i in range(1, len(parts)):
+            parent = '/'.join(parts[:i])
+            realpath = self._realpath(parent)
+            if os.path.islink(realpath) and not self._points_outside(parent, os.readlink(realpath)):
+                return True
+        return False
+
     @overrides(MountSource)
     def exists(self, path: str) -> bool:
-        return os.path.lexists(self._realpath(path))
+        return os.path.lexists(self._realpath(path)) and not self._is_below_link(path)
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
@@ -120,11 +133,7 @@ class FolderMountSource(MountSource):
             # assumption that "path" is normalized, i.e., it does not contain links in its path and no double
             # slashes and no '/./'. Calling posixpath.normpath would remedy the latter but ONLY under the
             # assumption that there are no symbolic links in the path, else it might make things worse.
-            if (
-                not os.path.isabs(linkname)
-                and max_up_count(linkname) > path.strip('/').count('/')
-                and os.path.exists(realpath)
-            ):
+            if self._points_outside(path, linkname) and os.path.exists(realpath):
                 realpath = os.path.realpath(realpath)
                 return self._stats_to_file_info(os.stat(realpath), realpath, "")
         return self._stats_to_file_info(os.lstat(realpath), path.lstrip('/'), linkname)
-- 
2.43.0


From a2a8d839fb0df912a8a7507651ae1bd546efebec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:52 +0000
Subject: [PATCH 47/92] fix: Write overlay lost data and metadata for copied,
 renamed, truncated, linked, and removed files and after interruptions

---
 ratarmount/WriteOverlay.py | 277 +++++++++++++++++++++++++++++--------
 1 file changed, 217 insertions(+), 60 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 47bed86..a2a9ad4 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -1,3 +1,4 @@
+import contextlib
 import errno
 import functools
 import os
@@ -67,6 +68,9 @@ class WritableFolderMountSource(fuse.Operations):
     """
 
     hiddenDatabaseName = '.ratarmount.overlay.sqlite'
+    temporaryFileSuffix = '-copy'
+    # For temporary SQLite file suffixes, see https://www.sqlite.org/tempfiles.html
+    hiddenSuffixes = ('', '-journal', '-shm', '-wal', temporaryFileSuffix)
 
     def __init__(self, path: str, mountSource: MountSource, ignoredPrefixes: Optional[list[str]] = None) -> None:
         if os.path.lexists(path):
@@ -152,6 +156,10 @@ class WritableFolderMountSource(fuse.Operations):
         """Path given relative to folder root. Leading '/' is acceptable"""
         return os.path.join(self.root, path.lstrip(os.path.sep))
 
+    def contains(self, path: str) -> bool:
+        """Return whether the given path has been created in or copied to the overlay folder."""
+        return os.path.lexists(self._realpath(path))
+
     def _ensure_parent_exists(self, path):
         """
         Creates parent folders for given path inside overlay folder if and only if they exist in the mount source.
@@ -198,23 +206,35 @@ class WritableFolderMountSource(fuse.Operations):
             os.chmod(temporaryPath, stat.S_IMODE(fileInfo.mode) | stat.S_IRUSR | stat.S_IWUSR)
 
     def _ensure_file_is_modifiable(self, path):
+        if os.path.lexists(self._realpath(path)):
+            return
+
+        fileInfo = self.mountSource.lookup(path)
+        if fileInfo is None:
+            raise fuse.FuseOSError(errno.ENOENT)
+
         self._ensure_parent_exists(path)
-        with (
-            self.mountSource.open(self.mountSource.lookup(path)) as sourceObject,
-            open(self._realpath(path), 'wb') as targetObject,
-        ):
-            shutil.copyfileobj(sourceObject, targetObject)
+        self._keep_metadata(path)
+        self._copy_to_overlay(fileInfo, path)
 
-    def _open(self, path: str, mode):
+    def _remove_leftover(self, path: str):
+        """Remove an invisible file or folder, which may exist after an operation was interrupted."""
+        realPath = self._realpath(path)
+        if not os.path.lexists(realPath) or not self.is_deleted(path):
+            return
+        if os.path.isdir(realPath) and not os.path.islink(realPath):
+            shutil.rmtree(realPath)
+        else:
+            os.unlink(realPath)
+
+    def _prepare_creation(self, path: str):
         self._ensure_parent_exists(path)
-        folder, name = self._split_path(path)
+        self._remove_leftover(path)
 
+    def _make_visible(self, path: str, mode: Optional[int] = None):
+        folder, name = self._split_path(path)
         self.sqlConnection.execute(
-            'INSERT OR IGNORE INTO "files" (path,name,mode,deleted) VALUES (?,?,?,?)', (folder, name, mode, False)
-        )
-        self.sqlConnection.execute(
-            'UPDATE "files" SET deleted=0 WHERE path == (?) AND name == (?)',
-            (folder, name),
+            'INSERT OR REPLACE INTO "files" (path,name,mode,deleted) VALUES (?,?,?,?)', (folder, name, mode, False)
         )
 
     def _mark_as_deleted(self, path: str):
@@ -228,15 +248,44 @@ class WritableFolderMountSource(fuse.Operations):
         else:
             self.sqlConnection.execute('DELETE FROM "files" WHERE (path,name) == (?,?)', (folder, name))
 
+    def _hide(self, path: str):
+        folder, name = self._split_path(path)
+        self.sqlConnection.execute(
+            'INSERT OR REPLACE INTO "files" (path,name,deleted) VALUES (?,?,?)', (folder, name, True)
+        )
+
+    def _restore_metadata(self, path: str, row):
+        folder, name = self._split_path(path)
+        if row:
+            self.sqlConnection.execute(f'INSERT OR REPLACE INTO "files" VALUES ({",".join(["?"] * 7)})', tuple(row))
+        else:
+            self.sqlConnection.execute('DELETE FROM "files" WHERE (path,name) == (?,?)', (folder, name))
+
+    def _remove(self, path: str, remove: Callable[[str], None]):
+        """
+        Hides the given path before removing the real file so that a version of it in the underlying mount source
+        does not reappear in between.
+        """
+        if os.path.lexists(self._realpath(path)):
+            row = self.sqlConnection.execute(
+                'SELECT * FROM "files" WHERE (path,name) == (?,?)', self._split_path(path)
+            ).fetchone()
+            self._hide(path)
+            try:
+                remove(self._realpath(path))
+            except Exception as exception:
+                traceback.print_exc()
+                self._restore_metadata(path, row)
+                raise fuse.FuseOSError(errno.EIO) from exception
+        self._mark_as_deleted(path)
+
     def list_deleted(self, path: str) -> list[str]:
         """Return list of files marked as deleted in the given path."""
         result = self.sqlConnection.execute(
             'SELECT name FROM "files" WHERE path == (?) AND deleted == 1', (path.rstrip('/'),)
         )
 
-        # For temporary SQLite file suffixes, see https://www.sqlite.org/tempfiles.html
-        suffixes = ['', '-journal', '-shm', '-wal']
-        return [x[0] for x in result] + [self.hiddenDatabaseName + suffix for suffix in suffixes]
+        return [x[0] for x in result] + [self.hiddenDatabaseName + suffix for suffix in self.hiddenSuffixes]
 
     def is_deleted(self, path: str) -> bool:
         folder, name = self._split_path(path)
@@ -283,15 +332,33 @@ class WritableFolderMountSource(fuse.Operations):
             (folder, name, sfi.mtime, sfi.mode, sfi.uid, sfi.gid, False),
         )
 
-    def _set_file_metadata(self, path: str, applyMetadataToFile: Callable[[str], None], metadata: dict[str, Any]):
+    def _has_metadata(self, path: str) -> bool:
         folder, name = self._split_path(path)
-
-        existsInMetadata = self.sqlConnection.execute(
+        result = self.sqlConnection.execute(
             'SELECT COUNT(*) > 0 FROM "files" WHERE "path" == (?) and "name" == (?)', (folder, name)
-        ).fetchone()[0]
+        )
+        return bool(result.fetchone()[0])
 
-        if not existsInMetadata:
+    def _keep_metadata(self, path: str):
+        if not self._has_metadata(path):
             self._init_file_metadata(path)
+
+    def _use_real_modification_time(self, path: str):
+        """To be called before changing the contents, so that the modification time of the real file is used."""
+        folder, name = self._split_path(path)
+        row = self.sqlConnection.execute(
+            'SELECT mtime FROM "files" WHERE "path" == (?) AND "name" == (?)', (folder, name)
+        ).fetchone()
+        if not row or row['mtime'] is None:
+            return
+        with contextlib.suppress(OSError, OverflowError):
+            os.utime(self._realpath(path), (row['mtime'], row['mtime']))
+        self.sqlConnection.execute(
+            'UPDATE "files" SET mtime=NULL WHERE "path" == (?) AND "name" == (?)', (folder, name)
+        )
+
+    def _set_file_metadata(self, path: str, applyMetadataToFile: Callable[[str], None], metadata: dict[str, Any]):
+        self._keep_metadata(path)
         self._set_metadata(path, metadata)
 
         # Apply the metadata change for the file in the overlay folder if it exists there.
@@ -378,31 +445,113 @@ class WritableFolderMountSource(fuse.Operations):
         if not self.mountSource.exists(old) or self.is_deleted(old):
             raise fuse.FuseOSError(errno.ENOENT)
 
-        folder, name = self._split_path(new)
+        fileInfo = self.mountSource.lookup(old)
+        if fileInfo is None:
+            raise fuse.FuseOSError(errno.ENOENT)
+        if stat.S_ISDIR(fileInfo.mode):
+            self._rename_folder(old, new)
+            return
 
-        # Delete target path from metadata database to avoid uniqueness restraint being invalidated
-        self.sqlConnection.execute('DELETE FROM "files" WHERE "path" == (?) and "name" == (?)', (folder, name))
-        self._set_file_metadata(old, lambda p: None, {'path': folder, 'name': name})
+        oldRealPath, newRealPath = self._realpath(old), self._realpath(new)
+        isInOverlay = os.path.lexists(oldRealPath)
+        if not isInOverlay and not stat.S_ISREG(fileInfo.mode) and not stat.S_ISLNK(fileInfo.mode):
+            raise fuse.FuseOSError(errno.EXDEV)
+        # Renaming between hard links of the same file does nothing, see rename(2).
+        if (
+            isInOverlay
+            and os.path.lexists(newRealPath)
+            and not self.is_deleted(new)
+            and os.path.samestat(os.lstat(oldRealPath), os.lstat(newRealPath))
+        ):
+            return
 
-        self._ensure_parent_exists(new)
-        if os.path.lexists(self._realpath(old)):
-            os.rename(self._realpath(old), self._realpath(new))
-        else:
-            fileInfo = self.mountSource.lookup(old)
-            if fileInfo is None:
-                raise fuse.FuseOSError(errno.ENOENT)
+        self._prepare_creation(new)
+        hidTarget = not self.is_deleted(new) and not self.mountSource.exists(new)
+        if hidTarget:
+            self._hide(new)
+        try:
+            if not isInOverlay:
+                self._keep_metadata(old)
+                self._copy_to_overlay(fileInfo, new)
+            else:
+                self._link_or_rename(oldRealPath, new)
+        except BaseException:
+            if hidTarget:
+                self._restore_metadata(new, None)
+            raise
+
+        # The file appears at the new path and disappears at the old one with this transaction.
+        oldFolder, oldName = self._split_path(old)
+        newFolder, newName = self._split_path(new)
+        self.sqlConnection.execute('BEGIN')
+        try:
+            self.sqlConnection.execute(
+                'DELETE FROM "files" WHERE "path" == (?) and "name" == (?)', (newFolder, newName)
+            )
+            self.sqlConnection.execute(
+                'INSERT INTO "files" SELECT ?,?,mtime,mode,uid,gid,0 FROM "files" WHERE "path" == ? AND "name" == ?',
+                (newFolder, newName, oldFolder, oldName),
+            )
+            self._hide(old)
+            self.sqlConnection.execute('COMMIT')
+        except BaseException:
+            self.sqlConnection.execute('ROLLBACK')
+            raise
 
-            with self.mountSource.open(fileInfo) as sourceObject, open(self._realpath(new), 'wb') as targetObject:
-                shutil.copyfileobj(sourceObject, targetObject)
+        if os.path.lexists(oldRealPath):
+            os.unlink(oldRealPath)
+        self._mark_as_deleted(old)
+
+    def _link_or_rename(self, oldRealPath: str, new: str):
+        try:
+            with self._temporary_path(new) as temporaryPath:
+                os.link(oldRealPath, temporaryPath, follow_symlinks=False)
+        except OSError as exception:
+            # Not all file systems support hard links.
+            if exception.errno not in (errno.EPERM, errno.EOPNOTSUPP, errno.ENOSYS, errno.EMLINK):
+                raise
+            os.rename(oldRealPath, self._realpath(new))
+
+    def _rename_folder(self, old: str, new: str):
+        # Only folders that wholly reside in the overlay folder can be renamed.
+        for path in (old, new):
+            isDeleted = self.is_deleted(path)
+            if (
+                isDeleted
+                or self.mountSource.versions(path) > 1
+                or (self.mountSource.exists(path) and not os.path.lexists(self._realpath(path)))
+            ):
+                raise fuse.FuseOSError(errno.EXDEV)
+
+        self._ensure_parent_exists(new)
+        os.rename(self._realpath(old), self._realpath(new))
 
-            self._mark_as_deleted(old)
+        oldFolder, oldName = self._split_path(old)
+        newFolder, newName = self._split_path(new)
+        oldPath, newPath = f"{oldFolder}/{oldName}", f"{newFolder}/{newName}"
+        self.sqlConnection.execute('BEGIN')
+        try:
+            self.sqlConnection.execute(
+                'UPDATE OR REPLACE "files" SET "path"=?, "name"=? WHERE "path" == ? AND "name" == ?',
+                (newFolder, newName, oldFolder, oldName),
+            )
+            self.sqlConnection.execute(
+                'UPDATE OR REPLACE "files" SET "path"=(? || substr("path", ?)) WHERE substr("path" || \'/\', 1, ?) == ?',
+                (newPath, len(oldPath) + 1, len(oldPath) + 1, oldPath + '/'),
+            )
+            self.sqlConnection.execute('COMMIT')
+        except BaseException:
+            self.sqlConnection.execute('ROLLBACK')
+            raise
 
     # Links
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('target')
     def symlink(self, target: str, source: str):
+        self._prepare_creation(target)
         os.symlink(source, self._realpath(target))
+        self._make_visible(target)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('target')
@@ -412,17 +561,26 @@ class WritableFolderMountSource(fuse.Operations):
         if not os.path.lexists(overlaySource) and self.mountSource.lookup(source):
             raise fuse.FuseOSError(errno.EXDEV)
 
-        target = self._realpath(target)
-
-        os.link(overlaySource, target)
+        self._prepare_creation(target)
+        os.link(overlaySource, self._realpath(target))
+        self._make_visible(target)
+        self.sqlConnection.execute(
+            'INSERT OR REPLACE INTO "files" SELECT ?,?,mtime,mode,uid,gid,0 FROM "files" WHERE "path" == ? AND "name" == ?',
+            (*self._split_path(target), *self._split_path(source)),
+        )
 
     # Folders
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def mkdir(self, path: str, mode: int):
-        self._open(path, mode | stat.S_IFDIR)
+        self._prepare_creation(path)
         os.mkdir(self._realpath(path), mode)
+        if self.is_deleted(path):
+            # The new folder must be empty even if there is a folder with that path in any of the mount sources.
+            for name in self.mountSource.list_mode(path) or ():
+                self._hide(f"{path}/{name}")
+        self._make_visible(path, mode | stat.S_IFDIR)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
@@ -436,14 +594,12 @@ class WritableFolderMountSource(fuse.Operations):
             if set(keys) - set(self.list_deleted(path)):
                 raise fuse.FuseOSError(errno.ENOTEMPTY)
 
-        try:
-            if os.path.exists(self._realpath(path)):
-                os.rmdir(self._realpath(path))
-        except Exception as exception:
-            traceback.print_exc()
-            raise fuse.FuseOSError(errno.EIO) from exception
-        finally:
-            self._mark_as_deleted(path)
+        def remove_folder(realPath: str):
+            for name in os.listdir(realPath):
+                self._remove_leftover(f"{path}/{name}")
+            os.rmdir(realPath)
+
+        self._remove(path, remove_folder)
 
     # Files
 
@@ -459,16 +615,20 @@ class WritableFolderMountSource(fuse.Operations):
             if flags & (os.O_WRONLY | os.O_RDWR):
                 self._ensure_file_is_modifiable(path)
 
+        if flags & os.O_TRUNC:
+            self._use_real_modification_time(path)
         return os.open(self._realpath(path), flags)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def create(self, path: str, mode: int, fi=None):
-        self._open(path, mode)
+        self._prepare_creation(path)
         # TODO Use the correct flags according after fixing argument forwarding in mfusepy.
         #      https://github.com/mxmlnkn/ratarmount/issues/172#issuecomment-3312526348
         # I see no downside to always adding read-mode by default, until then.
-        return os.open(self._realpath(path), os.O_RDWR | os.O_CREAT | os.O_TRUNC, mode)
+        handle = os.open(self._realpath(path), os.O_RDWR | os.O_CREAT | os.O_TRUNC, mode)
+        self._make_visible(path, mode)
+        return handle
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
@@ -480,25 +640,20 @@ class WritableFolderMountSource(fuse.Operations):
             self._mark_as_deleted(path)
             raise fuse.FuseOSError(errno.ENOENT)
 
-        try:
-            if os.path.lexists(self._realpath(path)):
-                os.unlink(self._realpath(path))
-        except Exception as exception:
-            traceback.print_exc()
-            raise fuse.FuseOSError(errno.EIO) from exception
-        finally:
-            self._mark_as_deleted(path)
+        self._remove(path, os.unlink)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def mknod(self, path: str, mode: int, dev: int):
-        self._ensure_parent_exists(path)
+        self._prepare_creation(path)
         os.mknod(self._realpath(path), mode, dev)
+        self._make_visible(path, mode)
 
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def truncate(self, path: str, length: int, fh=None):
         self._ensure_file_is_modifiable(path)
+        self._use_real_modification_time(path)
         os.truncate(self._realpath(path), length)
 
     # Actual writing
@@ -506,6 +661,8 @@ class WritableFolderMountSource(fuse.Operations):
     @overrides(fuse.Operations)
     @check_ignored_prefixes('path')
     def write(self, path: str, data, offset: int, fh):
+        if data:
+            self._use_real_modification_time(path)
         os.lseek(fh, offset, 0)
         return os.write(fh, data)
 
@@ -571,9 +728,9 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
         open(deletionList, 'a', encoding=encoding) as deletionListFile,
         open(appendList, 'a', encoding=encoding) as appendListFile,
     ):
-        # For temporary SQLite file suffixes, see https://www.sqlite.org/tempfiles.html
-        suffixes = ['', '-journal', '-shm', '-wal']
-        toBeIgnored = [WritableFolderMountSource.hiddenDatabaseName + suffix for suffix in suffixes]
+        toBeIgnored = [
+            WritableFolderMountSource.hiddenDatabaseName + suffix for suffix in WritableFolderMountSource.hiddenSuffixes
+        ]
 
         writeOverlayWithTrailingSlash = writeOverlay
         if not writeOverlayWithTrailingSlash.endswith('/'):
-- 
2.43.0


From 5cf44119eacd817da031a77dc57d64921e5cc84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:22 +0000
Subject: [PATCH 48/92] fix: Hard links in the write overlay became visible
 with wrong metadata when interrupted

---
 ratarmount/WriteOverlay.py | 41 ++++++++++++++++++++------------------
 1 file changed, 22 insertions(+), 19 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index a2a9ad4..5834dbb 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -480,28 +480,27 @@ class WritableFolderMountSource(fuse.Operations):
                 self._restore_metadata(new, None)
             raise
 
-        # The file appears at the new path and disappears at the old one with this transaction.
-        oldFolder, oldName = self._split_path(old)
-        newFolder, newName = self._split_path(new)
+        self._copy_metadata(old, new, hideOld=True)
+        if os.path.lexists(oldRealPath):
+            os.unlink(oldRealPath)
+        self._mark_as_deleted(old)
+
+    def _copy_metadata(self, old: str, new: str, hideOld: bool = False):
+        """The file appears at the new path and optionally disappears at the old one with a single transaction."""
         self.sqlConnection.execute('BEGIN')
         try:
+            self.sqlConnection.execute('DELETE FROM "files" WHERE (path,name) == (?,?)', self._split_path(new))
             self.sqlConnection.execute(
-                'DELETE FROM "files" WHERE "path" == (?) and "name" == (?)', (newFolder, newName)
+                'INSERT INTO "files" SELECT ?,?,mtime,mode,uid,gid,0 FROM "files" WHERE (path,name) == (?,?)',
+                (*self._split_path(new), *self._split_path(old)),
             )
-            self.sqlConnection.execute(
-                'INSERT INTO "files" SELECT ?,?,mtime,mode,uid,gid,0 FROM "files" WHERE "path" == ? AND "name" == ?',
-                (newFolder, newName, oldFolder, oldName),
-            )
-            self._hide(old)
+            if hideOld:
+                self._hide(old)
             self.sqlConnection.execute('COMMIT')
         except BaseException:
             self.sqlConnection.execute('ROLLBACK')
             raise
 
-        if os.path.lexists(oldRealPath):
-            os.unlink(oldRealPath)
-        self._mark_as_deleted(old)
-
     def _link_or_rename(self, oldRealPath: str, new: str):
         try:
             with self._temporary_path(new) as temporaryPath:
@@ -562,12 +561,16 @@ class WritableFolderMountSource(fuse.Operations):
             raise fuse.FuseOSError(errno.EXDEV)
 
         self._prepare_creation(target)
-        os.link(overlaySource, self._realpath(target))
-        self._make_visible(target)
-        self.sqlConnection.execute(
-            'INSERT OR REPLACE INTO "files" SELECT ?,?,mtime,mode,uid,gid,0 FROM "files" WHERE "path" == ? AND "name" == ?',
-            (*self._split_path(target), *self._split_path(source)),
-        )
+        isDeleted = self.is_deleted(target)
+        if not isDeleted:
+            self._hide(target)
+        try:
+            os.link(overlaySource, self._realpath(target), follow_symlinks=False)
+        except BaseException:
+            if not isDeleted:
+                self._restore_metadata(target, None)
+            raise
+        self._copy_metadata(source, target)
 
     # Folders
 
-- 
2.43.0


From 64cbbeae373ac272240188ac985e144962e6707a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:48 +0000
Subject: [PATCH 49/92] fix: Committing overlays lost links to folders, failed
 for names with wildcards, and corrupted archives without full padding

---
 ratarmount/WriteOverlay.py | 22 ++++++++++++++++++----
 1 file changed, 18 insertions(+), 4 deletions(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index 5834dbb..b06926c 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -739,7 +739,10 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
         if not writeOverlayWithTrailingSlash.endswith('/'):
             writeOverlayWithTrailingSlash += '/'
 
-        for dirpath, _, filenames in os.walk(writeOverlay, topdown=False):
+        for dirpath, dirnames, filenames in os.walk(writeOverlay, topdown=False):
+            # Symbolic links to folders are returned as folders.
+            filenames += [name for name in dirnames if os.path.islink(os.path.join(dirpath, name))]
+
             # dirpath should be a relative path (without leading slash) as seen from the overlay folder
             if dirpath.startswith(writeOverlayWithTrailingSlash):
                 dirpath = dirpath[len(writeOverlayWithTrailingSlash) :]
@@ -760,6 +763,7 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
     if os.stat(deletionList).st_size == 0 and os.stat(appendList).st_size == 0:
         if printDebug >= 1:
             print("Nothing to commit.")
+        shutil.rmtree(tmpFolder)
         return
 
     # TODO Support compressed archives by maybe using tarfile to read from the original and write to a temporary?
@@ -772,14 +776,17 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
         print()
 
         if os.stat(deletionList).st_size > 0:
-            print(f"    tar --delete --null --verbatim-files-from --files-from='{deletionList}' \\")
+            print(
+                "    tar --delete --blocking-factor=1 --force-local --no-wildcards --null --verbatim-files-from "
+                f"--files-from='{deletionList}' \\"
+            )
             print(f"        --file '{tarFile}' 2>&1 |")
             print("       sed '/^tar: Exiting with failure/d; /^tar.*Not found in archive/d'")
 
         if os.stat(appendList).st_size > 0:
             print(
-                f"    tar --append -C '{writeOverlay}' --null --verbatim-files-from --files-from='{appendList}' "
-                f"--file '{tarFile}'"
+                f"    tar --append --blocking-factor=1 --force-local --no-recursion -C '{writeOverlay}' --null "
+                f"--verbatim-files-from --files-from='{appendList}' --file '{tarFile}'"
             )
         print()
 
@@ -802,6 +809,10 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
                     [
                         "tar",
                         "--delete",
+                        # GNU tar corrupts archives with incomplete records, i.e., ones with less padding.
+                        "--blocking-factor=1",
+                        "--force-local",
+                        "--no-wildcards",
                         "--null",
                         f"--files-from={deletionList}",
                         "--file",
@@ -827,6 +838,9 @@ def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCO
                     [
                         "tar",
                         "--append",
+                        "--blocking-factor=1",
+                        "--force-local",
+                        "--no-recursion",
                         "-C",
                         writeOverlay,
                         "--null",
-- 
2.43.0


From cd9992b072a007b55864ec92cc01b2a0d9a67600 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:33 +0000
Subject: [PATCH 50/92] fix: Listing folders in RAR archives showed folders
 with type and metadata of files inside them

---
 .../ratarmountcore/mountsource/formats/rar.py | 60 +++++++++----------
 1 file changed, 28 insertions(+), 32 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/rar.py b/core/ratarmountcore/mountsource/formats/rar.py
index cc232e2..565b152 100644
--- a/core/ratarmountcore/mountsource/formats/rar.py
+++ b/core/ratarmountcore/mountsource/formats/rar.py
@@ -113,6 +113,20 @@ class RarMountSource(MountSource):
         )
         # fmt: on
 
+    @staticmethod
+    def _create_parent_file_info() -> FileInfo:
+        # fmt: off
+        return FileInfo(
+            size     = 0,
+            mtime    = time.time(),
+            mode     = 0o777 | stat.S_IFDIR,
+            linkname = "",
+            uid      = get_userid(),
+            gid      = get_groupid(),
+            userdata = [None],
+        )
+        # fmt: on
+
     @overrides(MountSource)
     def is_immutable(self) -> bool:
         return True
@@ -145,27 +159,22 @@ class RarMountSource(MountSource):
             path += '/'
 
         # The "filename" member is wrongly named as it returns the full path inside the archive not just the name part.
-        return {
-            self._get_name(path, normalizedPath): self._convert_to_file_info(normalizedPath, info)
-            for normalizedPath, info in self.files.items()
-            if self._get_name(path, normalizedPath)
-        }
+        fileInfos: dict[str, FileInfo] = {}
+        for normalizedPath, info in self.files.items():
+            name = self._get_name(path, normalizedPath)
+            if not name:
+                continue
+            if normalizedPath.rstrip('/') == path + name:
+                fileInfos[name] = self._convert_to_file_info(normalizedPath, info)
+            elif name not in fileInfos:
+                # A file inside the subfolder only tells us the name of that subfolder, not its metadata.
+                fileInfos[name] = self._create_parent_file_info()
+        return fileInfos
 
     @overrides(MountSource)
     def list_mode(self, path: str) -> Optional[Union[Iterable[str], dict[str, int]]]:
-        if not self.is_dir(path):
-            return None
-
-        path = path.strip('/')
-        if path:
-            path += '/'
-
-        # The "filename" member is wrongly named as it returns the full path inside the archive not just the name part.
-        return {
-            self._get_name(path, normalizedPath): RarMountSource._get_mode(info)
-            for normalizedPath, info in self.files.items()
-            if self._get_name(path, normalizedPath)
-        }
+        fileInfos = self.list(path)
+        return {name: fileInfo.mode for name, fileInfo in fileInfos.items()} if isinstance(fileInfos, dict) else None
 
     def _lookups(self, path: str) -> builtins.list[FileInfo]:
         # If we have a fileInfo for the given directory path, then everything is fine.
@@ -183,20 +192,7 @@ class RarMountSource(MountSource):
         if not any(info.userdata[-1][0] == pathAsDir for info in infoList) and any(
             normalizedPath.rstrip('/').startswith(pathAsDir) for normalizedPath, info in self.files.items()
         ):
-            # fmt: off
-            infoList.insert(
-                0,
-                FileInfo(
-                    size     = 0,
-                    mtime    = time.time(),
-                    mode     = 0o777 | stat.S_IFDIR,
-                    linkname = "",
-                    uid      = get_userid(),
-                    gid      = get_groupid(),
-                    userdata = [None],
-                ),
-            )
-            # fmt: on
+            infoList.insert(0, self._create_parent_file_info())
 
         return infoList
 
-- 
2.43.0


From fb6f2b7c4a2009a237357e70bfb2c85831080364 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:33 +0000
Subject: [PATCH 51/92] fix: Closing recursively mounted archives aborted the
 process because parents were closed first

---
 core/ratarmountcore/mountsource/compositing/automount.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 1c6c283..1d79b65 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -414,7 +414,9 @@ class AutoMountLayer(MountSource):
 
     @overrides(MountSource)
     def __exit__(self, exception_type, exception_value, exception_traceback):
-        for mountInfo in self.mounted.values():
+        # Close nested mount sources first because they read from files opened via their parent mount sources.
+        # E.g., rapidgzip still accesses the given file object on close and aborts the process if it is closed already.
+        for mountInfo in reversed(list(self.mounted.values())):
             mountInfo.mountSource.__exit__(exception_type, exception_value, exception_traceback)
 
     def join_threads(self):
-- 
2.43.0


From 6257bce4e33740668c7bad0b3acc29b773270803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:33 +0000
Subject: [PATCH 52/92] fix: Files with TAR extension inside TARs that are no
 TARs were replaced by empty folders

---
 core/ratarmountcore/mountsource/formats/tar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 8a7e571..c092d7b 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -903,6 +903,10 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
             # This would also save some indirections to speed up accesses.
             tarFileObject = StenciledFile([(self.tarFileObject, globalOffset, size)])
 
+            # The metadata reader does not raise for files that are not TARs. It would return an empty folder instead.
+            if not might_be_format(tarFileObject, FileFormatID.TAR):
+                continue
+
             isTar = False
             try:
                 # Do not use os.path.join here because the leading / might be missing.
-- 
2.43.0


From ee87c6e21222ce7ec58c0145ba537442f9d8ab24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:33 +0000
Subject: [PATCH 53/92] fix: Split files inside nested archives were not joined

---
 core/ratarmountcore/mountsource/compositing/automount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 1d79b65..979254c 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -178,7 +178,7 @@ class AutoMountLayer(MountSource):
         # We need to list the whole parent folder to successfully check for split files.
         joinedFile: Optional[IO[bytes]] = None
         if FIRST_SPLIT_EXTENSION_REGEX.fullmatch(os.path.splitext(path)[1]):
-            parentFolder, splitCandidateName = os.path.split(path)
+            parentFolder, splitCandidateName = os.path.split(pathInsideParentMountPoint)
             listResult = parentMountSource.list_mode(parentFolder)
             if not listResult:
                 return None
-- 
2.43.0


From ffac3fe67eb8fd0712fb711af142d133609ff670 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:37:33 +0000
Subject: [PATCH 54/92] fix: Folders with archive extensions were mounted
 lazily as if they were archives

---
 core/ratarmountcore/mountsource/compositing/automount.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index 979254c..e3353a4 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -158,7 +158,7 @@ class AutoMountLayer(MountSource):
         parentMountSource = parentMountInfo.mountSource
 
         archiveFileInfo = parentMountSource.lookup(pathInsideParentMountPoint)
-        if archiveFileInfo is None:
+        if archiveFileInfo is None or stat.S_ISDIR(archiveFileInfo.mode):
             return None
 
         # Do not mount uncompressed TARs inside SQLiteIndexedTar when they already were mounted recursively!
-- 
2.43.0


From 58e3ce9b6ba8bd52007ec9460709c0313af8f9c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:15 +0000
Subject: [PATCH 55/92] fix: Looking up non-UTF-8 paths raised an exception
 instead of returning not found

---
 core/ratarmountcore/SQLiteIndex.py | 21 +++++++++++++++++++++
 1 file changed, 21 insertions(+)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 17816cd..d63c9bd 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -894,6 +894,15 @@ class SQLiteIndex:
         # This effect is good to have for inserting rows but not for querying rows.
         return '/' + posixpath.normpath(path if path.startswith('../') else '/' + path).lstrip('/')
 
+    @staticmethod
+    def _is_storable(path: str) -> bool:
+        """Paths that are not valid Unicode cannot be stored, see _escape_invalid_characters, and also not queried."""
+        try:
+            path.encode()
+            return True
+        except UnicodeEncodeError:
+            return False
+
     def list(self, path: str) -> Optional[dict[str, FileInfo]]:
         """
         Return a dictionary for the given directory path: { fileName : FileInfo, ... } or None
@@ -927,6 +936,9 @@ class SQLiteIndex:
         # > Dictionaries preserve insertion order. Note that updating a key does not affect the order.
         # > Keys added after deletion are inserted at the end.
 
+        if not self._is_storable(path):
+            return None
+
         # https://www.sqlite.org/pragma.html#pragma_table_info
         columns = [row[0] for row in self.get_connection().execute("SELECT name FROM PRAGMA_TABLE_INFO('files');")]
         selected_columns = ['name', 'size', 'mtime', 'mode', 'linkname', 'uid', 'gid', 'offset', 'istar']
@@ -981,6 +993,9 @@ class SQLiteIndex:
         path : full path to file where '/' denotes TAR's root, e.g., '/', or '/foo'
         """
 
+        if not self._is_storable(path):
+            return None
+
         # See comments in list.
         # The only difference here is that we do not request all columns, but only two in a tuple.
         oldRowFactory = self.get_connection().row_factory
@@ -1008,6 +1023,9 @@ class SQLiteIndex:
         if path == '/':
             return {'/': create_root_file_info(userdata=[SQLiteIndexedTarUserData(0, 0, False, False, True, 0)])}
 
+        if not self._is_storable(path):
+            return {}
+
         path, name = path.rsplit('/', 1)
         rows = self.get_connection().execute(
             'SELECT * FROM "files" WHERE "path" == (?) AND "name" == (?) ORDER BY "offsetheader" ASC', (path, name)
@@ -1031,6 +1049,9 @@ class SQLiteIndex:
         if path == '/':
             return create_root_file_info(userdata=[SQLiteIndexedTarUserData(0, 0, False, False, True, 0)])
 
+        if not self._is_storable(path):
+            return None
+
         path, name = path.rsplit('/', 1)
         row = (
             self.get_connection()
-- 
2.43.0


From b1aa57eaa8aa80bd87762b9397c7528aca923e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:49 +0000
Subject: [PATCH 56/92] fix: Paths with parent references escaped from the root
 of mounted folders

---
 core/ratarmountcore/mountsource/formats/folder.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/folder.py b/core/ratarmountcore/mountsource/formats/folder.py
index f3ed68b..32f9a91 100644
--- a/core/ratarmountcore/mountsource/formats/folder.py
+++ b/core/ratarmountcore/mountsource/formats/folder.py
@@ -67,7 +67,8 @@ class FolderMountSource(MountSource):
 
     def _realpath(self, path: str) -> str:
         """Path given relative to folder root. Leading '/' is acceptable"""
-        return os.path.join(self.root, *path.strip('/').split('/'))
+        # Prepend '/' to ensure that normpath collapses all leading '..', which otherwise would escape the root.
+        return os.path.join(self.root, *posixpath.normpath('/' + path).strip('/').split('/'))
 
     @staticmethod
     def _stats_to_file_info(stats: os.stat_result, path: str, linkname: str):
-- 
2.43.0


From 88e4825bed2ebc93f0df173dc90ed55b6f9752a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:49 +0000
Subject: [PATCH 57/92] fix: Members with absolute paths were listed but could
 not be found in RAR archives

---
 core/ratarmountcore/mountsource/formats/rar.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/rar.py b/core/ratarmountcore/mountsource/formats/rar.py
index 565b152..88cc46d 100644
--- a/core/ratarmountcore/mountsource/formats/rar.py
+++ b/core/ratarmountcore/mountsource/formats/rar.py
@@ -53,10 +53,8 @@ class RarMountSource(MountSource):
 
     @staticmethod
     def _clean_path(path):
-        result = posixpath.normpath(path) + ('/' if path.endswith('/') else '')
-        while result.startswith('../'):
-            result = result[3:]
-        return result
+        # Prepend '/' to ensure that normpath collapses all leading '..' and handle absolute like relative paths.
+        return posixpath.normpath('/' + path).lstrip('/') + ('/' if path.endswith('/') else '')
 
     @staticmethod
     def _find_password(fileobj: "rarfile.RarFile", passwords):
@@ -131,7 +129,6 @@ class RarMountSource(MountSource):
     def is_immutable(self) -> bool:
         return True
 
-    # TODO How to behave with files in archive with absolute paths? Currently, they would never be shown.
     @staticmethod
     def _get_name(folderPath, filePath):
         if not filePath.startswith(folderPath):
-- 
2.43.0


From d378553ee1dbd3df413248d46861377b08d9d400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 58/92] fix: Parent references and missing parent folders in
 SQLAR archives were not handled

---
 .../mountsource/formats/sqlar.py              | 39 ++++++++++++-------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/sqlar.py b/core/ratarmountcore/mountsource/formats/sqlar.py
index 9e46877..274f9f6 100644
--- a/core/ratarmountcore/mountsource/formats/sqlar.py
+++ b/core/ratarmountcore/mountsource/formats/sqlar.py
@@ -190,15 +190,27 @@ class SQLARMountSource(MountSource):
 
         self.options = options
 
-        # Check for denormal names and store a normalized list if necessary.
-        self._files: dict[str, int] = {}
+        # Check for denormal names and missing parent folders and store a normalized list if necessary.
+        # The row ID is None for parent folders that do not appear in the table.
+        self._files: dict[str, Optional[int]] = {}
+        names = {name for name, in self.connection.execute("SELECT name FROM sqlar;")}
         if any(
-            posixpath.normpath(name.lstrip('/')) != name for name, in self.connection.execute("SELECT name FROM sqlar;")
+            SQLARMountSource._normalize(name) != name or ('/' in name and name.rsplit('/', 1)[0] not in names)
+            for name in names
         ):
-            self._files = {
-                posixpath.normpath(name.lstrip('/')): rowid
-                for name, rowid in self.connection.execute("SELECT name,rowid FROM sqlar ORDER BY rowid;")
-            }
+            for name, rowid in self.connection.execute("SELECT name,rowid FROM sqlar ORDER BY rowid;"):
+                path = SQLARMountSource._normalize(name)
+                if path:
+                    self._files[path] = rowid
+            for path in list(self._files):
+                while '/' in path:
+                    path = path.rsplit('/', 1)[0]
+                    self._files.setdefault(path, None)
+
+    @staticmethod
+    def _normalize(name: str) -> str:
+        # Prepend '/' to ensure that normpath collapses all leading '..', which must not appear as names.
+        return posixpath.normpath('/' + name).lstrip('/')
 
     @staticmethod
     def _quick_check_file(fileObject: IO[bytes], name: str, passwords: Optional[Sequence[bytes]]) -> bytes:
@@ -289,9 +301,7 @@ class SQLARMountSource(MountSource):
         if not self.is_dir(path):
             return None
 
-        path = path.lstrip('/')
-        if path and not path.endswith('/'):
-            path = path + '/'
+        path = self._get_prefix(path)
 
         # Use list instead of set to keep the order.
         names = []
@@ -343,22 +353,23 @@ class SQLARMountSource(MountSource):
         if fileVersion not in [0, 1]:
             return None
 
-        if path == "/":
+        path = path.strip('/')
+        if not path:
             return create_root_file_info([-1])
 
         if self._files:
-            path = path.lstrip('/')
-            # We assume here that all parent folders to files appear in the table.
             if path not in self._files:
                 return None
             rowid = self._files[path]
+            if rowid is None:
+                return create_root_file_info([-1])
 
             result = self.connection.execute(
                 f"SELECT {SQLARMountSource._SQLITE_FILEINFO_COLUMNS} FROM sqlar WHERE rowid=(?)", (rowid,)
             ).fetchone()
         else:
             result = self.connection.execute(
-                f"SELECT {SQLARMountSource._SQLITE_FILEINFO_COLUMNS} FROM sqlar WHERE name=(?)", (path.strip("/"),)
+                f"SELECT {SQLARMountSource._SQLITE_FILEINFO_COLUMNS} FROM sqlar WHERE name=(?)", (path,)
             ).fetchone()
 
         return self._convert_to_file_info(*result) if result else None
-- 
2.43.0


From 05037d22dd96b9d89f9ba833ea0090b7f6c88c0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 59/92] fix: Looking up non-UTF-8 paths in SQLAR archives
 raised an exception

---
 core/ratarmountcore/mountsource/formats/sqlar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/sqlar.py b/core/ratarmountcore/mountsource/formats/sqlar.py
index 274f9f6..3717552 100644
--- a/core/ratarmountcore/mountsource/formats/sqlar.py
+++ b/core/ratarmountcore/mountsource/formats/sqlar.py
@@ -357,6 +357,11 @@ class SQLARMountSource(MountSource):
         if not path:
             return create_root_file_info([-1])
 
+        try:
+            path.encode()
+        except UnicodeEncodeError:
+            return None  # Names that are not valid Unicode cannot be stored and also not queried.
+
         if self._files:
             if path not in self._files:
                 return None
-- 
2.43.0


From 487641d822ff65ec1c39baa731676e1dba0d0931 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:07 +0000
Subject: [PATCH 60/92] fix: Listed and looked up metadata of mount points
 inside implied folders differed

---
 .../mountsource/compositing/removeprefix.py            | 10 ++++++++--
 .../mountsource/compositing/subvolumes.py              |  4 +++-
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/removeprefix.py b/core/ratarmountcore/mountsource/compositing/removeprefix.py
index ed0a820..bc58d97 100644
--- a/core/ratarmountcore/mountsource/compositing/removeprefix.py
+++ b/core/ratarmountcore/mountsource/compositing/removeprefix.py
@@ -32,15 +32,21 @@ class RemovePrefixMountSource(MountSource):
             return queryDir(self.prefix.removeprefix(path).split('/', maxsplit=1)[0])
         return defaultValue
 
+    def _lookup_child(self, path: str, name: str) -> FileInfo:
+        fileInfo = self.lookup(path.rstrip('/') + '/' + name)
+        return self._directory_info.clone() if fileInfo is None else fileInfo
+
     # Methods with 'path' argument
 
     @overrides(MountSource)
     def list(self, path: str) -> Optional[Union[Iterable[str], dict[str, FileInfo]]]:
-        return self._parse_path(path, self.mountSource.list, lambda name: {name: self._directory_info.clone()}, None)
+        return self._parse_path(path, self.mountSource.list, lambda name: {name: self._lookup_child(path, name)}, None)
 
     @overrides(MountSource)
     def list_mode(self, path: str) -> Optional[Union[Iterable[str], dict[str, int]]]:
-        return self._parse_path(path, self.mountSource.list_mode, lambda name: {name: self._directory_info.mode}, None)
+        return self._parse_path(
+            path, self.mountSource.list_mode, lambda name: {name: self._lookup_child(path, name).mode}, None
+        )
 
     @overrides(MountSource)
     def lookup(self, path: str, fileVersion: int = 0) -> Optional[FileInfo]:
diff --git a/core/ratarmountcore/mountsource/compositing/subvolumes.py b/core/ratarmountcore/mountsource/compositing/subvolumes.py
index 7465677..3f15348 100644
--- a/core/ratarmountcore/mountsource/compositing/subvolumes.py
+++ b/core/ratarmountcore/mountsource/compositing/subvolumes.py
@@ -158,7 +158,9 @@ class SubvolumesMountSource(MountSource):
 
         _subvolume, subpath, mounted = result
         if not isinstance(mounted, MountSource):
-            return {name: self.rootFileInfo.mode if onlyMode else self.rootFileInfo.clone() for name in mounted}
+            # Mount points must have the same metadata as returned by lookup.
+            result = {name: self.lookup(path.rstrip('/') + '/' + name) or self.rootFileInfo.clone() for name in mounted}
+            return {name: fileInfo.mode for name, fileInfo in result.items()} if onlyMode else result
 
         return mounted.list_mode(subpath) if onlyMode else mounted.list(subpath)
 
-- 
2.43.0


From 6b6525255e70c6e595bb4bc99c4d91ff70fb7862 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:40 +0000
Subject: [PATCH 61/92] fix: BlockParallelReader returned short results when
 reading until the end

---
 core/ratarmountcore/BlockParallelReaders.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/BlockParallelReaders.py b/core/ratarmountcore/BlockParallelReaders.py
index b22e206..0ad0f6d 100644
--- a/core/ratarmountcore/BlockParallelReaders.py
+++ b/core/ratarmountcore/BlockParallelReaders.py
@@ -149,7 +149,10 @@ class BlockParallelReader(io.BufferedIOBase):
     def tell(self) -> int:
         return self._offset
 
-    def _read(self, size: int, decodeBlock) -> bytes:
+    def _read(self, size: Optional[int], decodeBlock) -> bytes:
+        if size is None or size < 0:
+            size = max(0, self.blockBoundaries[-1] - self._offset)
+
         blocks = []
         blockNumber = self._find_block(self.blockBoundaries, self._offset)
         if blockNumber is None:
-- 
2.43.0


From 18ef31709e3e5c3964f46ba68f9c5d110212e36b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:50 +0000
Subject: [PATCH 62/92] fix: Format detection raised an exception for very
 small nested files

---
 core/ratarmountcore/formats.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/formats.py b/core/ratarmountcore/formats.py
index 9e4f4d5..6bd38bf 100644
--- a/core/ratarmountcore/formats.py
+++ b/core/ratarmountcore/formats.py
@@ -262,6 +262,15 @@ def find_squashfs_offset(fileobj: IO[bytes], maxSkip=1024 * 1024) -> int:
     return -1
 
 
+def _is_zip(fileobj: IO[bytes]) -> bool:
+    try:
+        return zipfile.is_zipfile(fileobj)
+    except ValueError:
+        # is_zipfile expects an OSError for files too small to seek to the end of central directory record,
+        # but our own file objects, e.g., StenciledFile, raise a ValueError for that.
+        return False
+
+
 def _is_cpio(fileobj: IO[bytes]) -> bool:
     # http://justsolve.archiveteam.org/wiki/Cpio
     # https://github.com/libarchive/libarchive/blob/6110e9c82d8ba830c3440f36b990483ceaaea52c/libarchive/
@@ -424,7 +433,7 @@ ARCHIVE_FORMATS: dict[FileFormatID, FileFormatInfo] = {
     # is_zipfile might yields some false positives, we want it to err on the positive side.
     # See: https://bugs.python.org/issue42096
     # https://en.wikipedia.org/wiki/Comic_book_archive
-    FID.ZIP: FileFormatInfo(['zip', 'cbz'], None, zipfile.is_zipfile),
+    FID.ZIP: FileFormatInfo(['zip', 'cbz'], None, _is_zip),
     # SQLAR can be encrypted, for which it will not have any magic bytes! Instead, the first 16 B are the salt.
     FID.SQLAR: (
         FileFormatInfo(['sqlar'], b'SQLite format 3\x00', None)
-- 
2.43.0


From 2e1d32cd7319d712ad357e6dbbd6fd30dc2ebb1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:00:56 +0000
Subject: [PATCH 63/92] fix: Original file names stored in gzip files were used
 without checking for folders

---
 core/ratarmountcore/mountsource/formats/tar.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index c092d7b..4c2d66e 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -989,7 +989,11 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
                 try:
                     info = get_gzip_info(self.rawFileObject)
                     if info:
-                        fname, mtime = info
+                        originalName, mtime = info
+                        # The name may contain anything but it must not be usable for path traversal.
+                        originalName = originalName.rsplit('/', 1)[-1]
+                        if originalName not in ('', '.', '..'):
+                            fname = originalName
                 except Exception:
                     logger.info("Could not determine an original gzip file name probably because it is not a gzip", exc_info=logger.isEnabledFor(logging.DEBUG))
                 finally:
-- 
2.43.0


From 4c66edbf155a78a12fd93841cf169dfce4223f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:05:51 +0000
Subject: [PATCH 64/92] fix: Released file handles were kept until unmounting

---
 ratarmount/FuseMount.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 67a6704..6431e19 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -796,7 +796,8 @@ class FuseMount(fuse.Operations):
         if fh not in self.openedFiles:
             raise fuse.FuseOSError(errno.ESTALE)
 
-        openedFile = self._resolve_file_handle(fh)
+        # Forget the handle, or else all opened file objects are kept in memory until unmounting.
+        _flags, openedFile = self.openedFiles.pop(fh)
         if isinstance(openedFile, int):
             os.close(openedFile)
         else:
-- 
2.43.0


From 34de01d6d0f0013d0a11acb250394f3be665657f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 65/92] fix: Detecting headerless deflate raised an exception
 for very small files

---
 core/ratarmountcore/formats.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/formats.py b/core/ratarmountcore/formats.py
index 6bd38bf..8488345 100644
--- a/core/ratarmountcore/formats.py
+++ b/core/ratarmountcore/formats.py
@@ -314,10 +314,11 @@ def _check_deflate(fileobj: IO[bytes]) -> bool:
     if not callable(determineFileType):
         return False
 
-    if determineFileType(fileobj).lower() != 'deflate':
-        return False
-
     try:
+        # This may raise an exception for very small files.
+        if determineFileType(fileobj).lower() != 'deflate':
+            return False
+
         # determineFileType only checks the header, which is almost nothing for 'deflate'.
         # Therefore try to read a bit.
         with rapidgzip.RapidgzipFile(fileobj, parallelization=1, chunk_size=128 * 1024) as file:
-- 
2.43.0


From 2b284523c69350def9a005d4bc897f99a6ef7946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:17:29 +0000
Subject: [PATCH 66/92] fix: SQLite databases of other programs with a table
 named files were mounted

---
 core/ratarmountcore/SQLiteIndex.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index d63c9bd..7288285 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -1241,7 +1241,9 @@ class SQLiteIndex:
             return False
 
         try:
-            self.sqlConnection.execute('SELECT * FROM "files" WHERE 0 == 1;')
+            # Name some columns to refuse databases of other programs that happen to have a table with that name.
+            # Do not quote them because SQLite interprets quoted unknown columns as strings.
+            self.sqlConnection.execute('SELECT path, name, offsetheader, size, mode, linkname FROM "files" WHERE 0 == 1;')
         except sqlite3.DatabaseError:
             self.sqlConnection = None
             return False
-- 
2.43.0


From 5c1d729b6c468c77504e800aebd24fe1f183e9a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 67/92] fix: Archives were mistaken for ZIP or SquashFS files
 stored uncompressed inside them

---
 core/ratarmountcore/mountsource/factory.py | 38 +++++++++++++++++++---
 1 file changed, 33 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/mountsource/factory.py b/core/ratarmountcore/mountsource/factory.py
index ed355c9..a79d48e 100644
--- a/core/ratarmountcore/mountsource/factory.py
+++ b/core/ratarmountcore/mountsource/factory.py
@@ -14,7 +14,7 @@ from pathlib import Path
 from typing import IO, Union
 
 from ratarmountcore.compressions import COMPRESSION_BACKENDS, check_for_split_file_in_folder
-from ratarmountcore.formats import FILE_FORMATS, FileFormatID, might_be_format
+from ratarmountcore.formats import FID, FILE_FORMATS, FileFormatID, might_be_format
 from ratarmountcore.StenciledFile import JoinedFileFromFactory
 from ratarmountcore.utils import CompressionError, RatarmountError
 
@@ -272,6 +272,27 @@ def find_backends_by_extension(fileName: str) -> list[str]:
     ]
 
 
+def _find_backends_by_file_start(fileObject: IO[bytes], fileName: str) -> list[str]:
+    """
+    ZIP and SquashFS may follow other data, e.g., for self-extracting archives and AppImages. Therefore, they are also
+    detected inside other archives that contain such files uncompressed, which is only correct if nothing else fits.
+    """
+    oldOffset = fileObject.tell()
+    firstBytes = fileObject.read(16)
+    fileObject.seek(oldOffset)
+    # Encrypted SQLAR files look like random data and are therefore also detected everywhere.
+    ignoredFormats = {
+        fid
+        for fid, magicBytes in ((FID.ZIP, b'PK'), (FID.SQUASHFS, b'hsqs'), (FID.SQLAR, b'SQLite format 3\x00'))
+        if not firstBytes.startswith(magicBytes) and not _matches_extension(fileName, [fid])
+    }
+    return [
+        backend
+        for backend, info in ARCHIVE_BACKENDS.items()
+        if any(might_be_format(fileObject, fid) for fid in info.formats - ignoredFormats)
+    ]
+
+
 def open_mount_source(fileOrPath: Union[str, IO[bytes], os.PathLike], **options) -> MountSource:
     if isinstance(fileOrPath, str) and '://' in fileOrPath:
         openedURL = try_open_url(fileOrPath)
@@ -287,7 +308,7 @@ def open_mount_source(fileOrPath: Union[str, IO[bytes], os.PathLike], **options)
 
         fileOrPath = openedURL
 
-    autoPrioritizedBackends: list[str] = []
+    fileName = ''
     joinedFileName = ''
     if isinstance(fileOrPath, (str, os.PathLike)):
         path = Path(fileOrPath)
@@ -313,9 +334,9 @@ def open_mount_source(fileOrPath: Union[str, IO[bytes], os.PathLike], **options)
             )
         else:
             fileOrPath = str(fileOrPath)
-            autoPrioritizedBackends = find_backends_by_extension(fileOrPath)
+            fileName = fileOrPath
     else:
-        autoPrioritizedBackends = find_backends_by_extension(options.get('tarFileName', ''))
+        fileName = options.get('tarFileName', '')
 
     prioritizedBackends = options.get("prioritizedBackends", [])
     triedBackends = set()
@@ -330,7 +351,14 @@ def open_mount_source(fileOrPath: Union[str, IO[bytes], os.PathLike], **options)
     with (
         open(fileOrPath, 'rb') if isinstance(fileOrPath, (str, os.PathLike)) else contextlib.nullcontext(fileOrPath)
     ) as file:
-        for name in prioritizedBackends + autoPrioritizedBackends + list(ARCHIVE_BACKENDS.keys()):
+        backendsByExtension = find_backends_by_extension(fileName)
+        backendsByFileStart = _find_backends_by_file_start(file, fileName)
+        for name in (
+            prioritizedBackends
+            + [backend for backend in backendsByExtension if backend in backendsByFileStart]
+            + backendsByFileStart
+            + list(ARCHIVE_BACKENDS.keys())
+        ):
             name = mapToArchiveBackend.get(name, name)
             if name in triedBackends:
                 continue
-- 
2.43.0


From 1655aa3baa3f950dde6940b50f622a1d4ca79a50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 68/92] fix: Compressed files beginning with zeros were refused
 as empty TARs

---
 .../mountsource/formats/libarchive.py         | 22 ++++++++++++++-----
 1 file changed, 16 insertions(+), 6 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index 37e3b35..17c6a92 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -212,22 +212,26 @@ class IterableArchive:
         self._entry: Optional[ArchiveEntry] = None
         self._eof = False
 
+        self._passwords = passwords or []
+
         self._archive = laffi.read_new()
         try:
-            self._set_passwords(passwords or [])
+            self._set_passwords(self._passwords)
             self._try_to_open(allowArchives=True)
         except ArchiveError as exception:
             logger.info("Was not able to open %s as given archive. Try to undo compressions next.", self._file)
             logger.info("Exception: %s", exception, exc_info=logger.isEnabledFor(logging.DEBUG))
             try:
-                laffi.read_free(self._archive)
-                self._archive = laffi.read_new()
-
-                self._set_passwords(passwords or [])
-                self._try_to_open(allowArchives=False)
+                self._reopen_without_archives()
             except ArchiveError as exception2:
                 raise exception2 from exception
 
+    def _reopen_without_archives(self):
+        laffi.read_free(self._archive)
+        self._archive = laffi.read_new()
+        self._set_passwords(self._passwords)
+        self._try_to_open(allowArchives=False)
+
     def format_name(self):
         return laffi.format_name(self._archive)
 
@@ -336,6 +340,12 @@ class IterableArchive:
                 "Successfully opened type '%s' with libarchive. Using filters: %s", format_name, self.filter_names()
             )
 
+        # Zeros are the end marker of TARs, i.e., compressed files beginning with zeros look like an empty TAR.
+        if self._entry.eof and self._entryIndex == 0 and self.format_name() == b'tar' and self.filter_names():
+            self._entry = None
+            self._reopen_without_archives()
+            self._entry = ArchiveEntry(self._archive, entry_index=self._entryIndex, encoding=self.encoding)
+
         self._entryIndex += 1
         if self._entry.eof:
             self._eof = True
-- 
2.43.0


From 1e7dc1302d7998f3a3d110cd0902b12e7135e43e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:18 +0000
Subject: [PATCH 69/92] fix: Checking truncated gzip files aborted the process

---
 core/ratarmountcore/compressions.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/core/ratarmountcore/compressions.py b/core/ratarmountcore/compressions.py
index db9ab82..b83c728 100644
--- a/core/ratarmountcore/compressions.py
+++ b/core/ratarmountcore/compressions.py
@@ -8,6 +8,7 @@ import re
 import string
 import struct
 import sys
+import zlib
 from collections.abc import Iterable, Sequence
 from typing import IO, Any, Callable, Optional, cast
 
@@ -405,6 +406,15 @@ def get_gzip_info(fileobj: IO[bytes]) -> Optional[tuple[str, int]]:
     return None
 
 
+def _check_zlib_decompression(fileobj: IO[bytes]) -> None:
+    """Raises an exception if not a single byte can be decompressed from the gzip or zlib stream."""
+    decompressor = zlib.decompressobj(wbits=zlib.MAX_WBITS | 32)
+    while chunk := fileobj.read(16 * 1024):
+        if decompressor.decompress(chunk, 1) or decompressor.eof:
+            return
+    raise CompressionError("Unexpected end of compressed stream!")
+
+
 def detect_compression(
     fileobj: IO[bytes], prioritizedBackends: Optional[Sequence[str]] = None
 ) -> Optional[FileFormatID]:
@@ -444,6 +454,12 @@ def detect_compression(
             return None
 
         try:
+            # Rapidgzip aborts the whole process for many truncated files, i.e., do not use it to check files.
+            if compressionId in (FID.GZIP, FID.ZLIB):
+                _check_zlib_decompression(fileobj)
+                fileobj.seek(oldOffset)
+                return compressionId
+
             # Disable parallelization because it may lead to unnecessary expensive prefetching.
             # We only need to read 1 byte anyway to verify correctness.
             compressedFileobj = backend.open(fileobj, parallelization=1)
-- 
2.43.0


From 3cba2500de92fac625e46d5732f80e4471855483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:50 +0000
Subject: [PATCH 70/92] fix: LZMA-compressed SquashFS images with small blocks
 and much metadata could not be opened

---
 core/ratarmountcore/mountsource/formats/squashfs.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/squashfs.py b/core/ratarmountcore/mountsource/formats/squashfs.py
index 23ef6bc..4293646 100644
--- a/core/ratarmountcore/mountsource/formats/squashfs.py
+++ b/core/ratarmountcore/mountsource/formats/squashfs.py
@@ -134,7 +134,10 @@ class LZMACompressor(Compressor):
         return self._lib.decompress(
             src[LZMA_HEADER_SIZE:],
             format=self._lib.FORMAT_RAW,
-            filters=[{"id": self._lib.FILTER_LZMA1, 'lc': 3, 'lp': 0, 'pb': 2, 'dict_size': self._block_size}],
+            # Metadata blocks can be up to 8 KiB, i.e., larger than the smallest data block size.
+            filters=[
+                {"id": self._lib.FILTER_LZMA1, 'lc': 3, 'lp': 0, 'pb': 2, 'dict_size': max(self._block_size, 8192)}
+            ],
         )
 
 
-- 
2.43.0


From a978881ef8a247c3fe5c892b404fc405cd8aa2e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 71/92] fix: Checking files for deflate aborted the process for
 failing or truncated files

---
 core/ratarmountcore/compressions.py |  4 ++++
 core/ratarmountcore/formats.py      | 23 ++++++++++++++++++-----
 2 files changed, 22 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/compressions.py b/core/ratarmountcore/compressions.py
index b83c728..8975d0d 100644
--- a/core/ratarmountcore/compressions.py
+++ b/core/ratarmountcore/compressions.py
@@ -460,6 +460,10 @@ def detect_compression(
                 fileobj.seek(oldOffset)
                 return compressionId
 
+            # The format check already has decompressed some data.
+            if compressionId == FID.DEFLATE:
+                return compressionId
+
             # Disable parallelization because it may lead to unnecessary expensive prefetching.
             # We only need to read 1 byte anyway to verify correctness.
             compressedFileobj = backend.open(fileobj, parallelization=1)
diff --git a/core/ratarmountcore/formats.py b/core/ratarmountcore/formats.py
index 8488345..517c7a3 100644
--- a/core/ratarmountcore/formats.py
+++ b/core/ratarmountcore/formats.py
@@ -25,11 +25,13 @@ See:
 import contextlib
 import dataclasses
 import enum
+import io
 import re
 import struct
 import sys
 import tarfile
 import zipfile
+import zlib
 from typing import IO, Callable, Optional, Union
 
 with contextlib.suppress(ImportError):
@@ -315,14 +317,25 @@ def _check_deflate(fileobj: IO[bytes]) -> bool:
         return False
 
     try:
-        # This may raise an exception for very small files.
-        if determineFileType(fileobj).lower() != 'deflate':
+        oldOffset = fileobj.tell()
+
+        # This may raise an exception for very small files. Do not give it the file object because it aborts the
+        # whole process when the file object raises an exception.
+        if determineFileType(io.BytesIO(fileobj.read(128 * 1024))).lower() != 'deflate':
             return False
 
         # determineFileType only checks the header, which is almost nothing for 'deflate'.
-        # Therefore try to read a bit.
-        with rapidgzip.RapidgzipFile(fileobj, parallelization=1, chunk_size=128 * 1024) as file:
-            file.read(108 * 1024)  # Read a bit less than the chunk size.
+        # Therefore try to read a bit. Do not use rapidgzip because it aborts for many truncated files.
+        fileobj.seek(oldOffset)
+        decompressor = zlib.decompressobj(wbits=-zlib.MAX_WBITS)
+        sizeToRead = 108 * 1024
+        data = b''
+        while sizeToRead > 0 and (data or (data := fileobj.read(16 * 1024))):
+            sizeToRead -= len(decompressor.decompress(data, sizeToRead))
+            data = decompressor.unconsumed_tail
+            if decompressor.eof:
+                data = decompressor.unused_data
+                decompressor = zlib.decompressobj(wbits=-zlib.MAX_WBITS)
         return True
     except Exception:
         pass
-- 
2.43.0


From b18b13ab165d2eb57cf8ef060373106e9e62eb7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 72/92] fix: Closing some mount sources closed the file objects
 given by the caller

---
 core/ratarmountcore/mountsource/formats/html.py     | 13 ++++++++++++-
 core/ratarmountcore/mountsource/formats/ogg.py      |  3 ++-
 core/ratarmountcore/mountsource/formats/pdf.py      |  3 ++-
 core/ratarmountcore/mountsource/formats/squashfs.py |  6 ++++++
 core/ratarmountcore/mountsource/formats/tar.py      |  8 ++++++--
 5 files changed, 28 insertions(+), 5 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/html.py b/core/ratarmountcore/mountsource/formats/html.py
index eee9d9f..6255b13 100644
--- a/core/ratarmountcore/mountsource/formats/html.py
+++ b/core/ratarmountcore/mountsource/formats/html.py
@@ -440,6 +440,7 @@ class HTMLMountSource(SQLiteIndexMountSource):
             raise ValueError("Not a valid HTML file!")
 
         self.fileObjectLock = threading.Lock()
+        self.isFileObject = not isinstance(fileOrPath, str)
         self.fileObject = (
             open(fileOrPath, encoding=encoding)  # open in text mode!
             if isinstance(fileOrPath, str)
@@ -519,4 +520,14 @@ class HTMLMountSource(SQLiteIndexMountSource):
         if lock := getattr(self, 'fileObjectLock', None):
             with lock:
                 if fobj := getattr(self, 'fileObject', None):
-                    fobj.close()
+                    if self.isFileObject:
+                        # Do not close file objects given by the caller, not even when the wrapper is deleted!
+                        fobj.detach()
+                        self.fileObject = None
+                    else:
+                        fobj.close()
+
+    def __del__(self):
+        self.close()
+        if hasattr(super(), '__del__'):
+            super().__del__()
diff --git a/core/ratarmountcore/mountsource/formats/ogg.py b/core/ratarmountcore/mountsource/formats/ogg.py
index 696d6e3..dacfa07 100644
--- a/core/ratarmountcore/mountsource/formats/ogg.py
+++ b/core/ratarmountcore/mountsource/formats/ogg.py
@@ -486,6 +486,7 @@ class OGGMountSource(SQLiteIndexMountSource):
         if isinstance(fileOrPath, Path):
             fileOrPath = str(fileOrPath)
         self.fileObjectLock = threading.Lock()
+        self.isFileObject = not isinstance(fileOrPath, str)
         self.fileObject = open(fileOrPath, 'rb') if isinstance(fileOrPath, str) else fileOrPath
         if not might_be_format(self.fileObject, FileFormatID.OGG):
             raise ValueError("Not a valid OGG file!")
@@ -552,5 +553,5 @@ class OGGMountSource(SQLiteIndexMountSource):
     @overrides(SQLiteIndexMountSource)
     def close(self) -> None:
         super().close()
-        if fobj := getattr(self, 'fileObject', None):
+        if not self.isFileObject and (fobj := getattr(self, 'fileObject', None)):
             fobj.close()
diff --git a/core/ratarmountcore/mountsource/formats/pdf.py b/core/ratarmountcore/mountsource/formats/pdf.py
index ca2a50f..00be961 100644
--- a/core/ratarmountcore/mountsource/formats/pdf.py
+++ b/core/ratarmountcore/mountsource/formats/pdf.py
@@ -145,6 +145,7 @@ class PDFMountSource(SQLiteIndexMountSource):
 
         if isinstance(fileOrPath, Path):
             fileOrPath = str(fileOrPath)
+        self.isFileObject = not isinstance(fileOrPath, str)
         self.fileObject = open(fileOrPath, 'rb') if isinstance(fileOrPath, str) else fileOrPath
         if not might_be_format(self.fileObject, FileFormatID.PDF):
             raise ValueError("Not a valid PDF file!")
@@ -229,5 +230,5 @@ class PDFMountSource(SQLiteIndexMountSource):
     @overrides(SQLiteIndexMountSource)
     def close(self) -> None:
         super().close()
-        if fobj := getattr(self, 'fileObject', None):
+        if not self.isFileObject and (fobj := getattr(self, 'fileObject', None)):
             fobj.close()
diff --git a/core/ratarmountcore/mountsource/formats/squashfs.py b/core/ratarmountcore/mountsource/formats/squashfs.py
index 4293646..d72a9cb 100644
--- a/core/ratarmountcore/mountsource/formats/squashfs.py
+++ b/core/ratarmountcore/mountsource/formats/squashfs.py
@@ -410,6 +410,7 @@ class SquashFSMountSource(SQLiteIndexMountSource):
                 file.close()
             raise ValueError("Not a valid SquashFS image!")
 
+        self.isFileObject = not openedFile
         self.rawFileObject = file
         self.image = SquashFSImage(self.rawFileObject, offset=offset)
 
@@ -469,6 +470,11 @@ class SquashFSMountSource(SQLiteIndexMountSource):
 
     @overrides(SQLiteIndexMountSource)
     def close(self) -> None:
+        super().close()
+
+        if getattr(self, 'isFileObject', True):
+            return
+
         if rawFileObject := getattr(self, 'rawFileObject', None):
             rawFileObject.close()
 
diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 4c2d66e..782b0ea 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -793,10 +793,14 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
     def close(self) -> None:
         super().close()
 
-        if tarFileObject := getattr(self, 'tarFileObject', None):
+        isFileObject = getattr(self, 'isFileObject', True)
+        rawFileObject = getattr(self, 'rawFileObject', None)
+
+        # For uncompressed TARs, tarFileObject is the given file object, which should not be closed.
+        if (rawFileObject or not isFileObject) and (tarFileObject := getattr(self, 'tarFileObject', None)):
             tarFileObject.close()
 
-        if not getattr(self, 'isFileObject', True) and (rawFileObject := getattr(self, 'rawFileObject', None)):
+        if not isFileObject and rawFileObject:
             rawFileObject.close()
 
     def _get_archive_path(self) -> Optional[str]:
-- 
2.43.0


From 6a3e77b3aa479faeeeed4baef5731aaa9685ef7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:41:34 +0000
Subject: [PATCH 73/92] fix: Closed mount sources kept archives and temporary
 files open

---
 .../mountsource/compositing/automount.py      | 12 ++++++--
 core/ratarmountcore/mountsource/formats/ar.py |  6 ++++
 .../mountsource/formats/libarchive.py         | 29 +++++++++++++++----
 .../mountsource/formats/sqlar.py              |  6 ++--
 4 files changed, 42 insertions(+), 11 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index e3353a4..c2ef29f 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -39,6 +39,8 @@ class AutoMountLayer(MountSource):
         mountSource: MountSource
         rootFileInfo: FileInfo
         recursionDepth: int
+        # The file object opened for the mount source, which mount sources do not close by themselves.
+        fileObject: Optional[IO[bytes]] = None
 
     def __init__(self, mountSource: MountSource, **options) -> None:
         if isinstance(mountSource, AutoMountLayer):
@@ -200,6 +202,7 @@ class AutoMountLayer(MountSource):
                 [(lambda filePath=filePath: open_file(filePath)) for filePath in filePaths]  # type: ignore
             )
 
+        fileObject: Optional[IO[bytes]] = None
         try:
             options = self.options.copy()
             options['recursionDepth'] = max(0, self.maxRecursionDepth - recursionDepth)
@@ -219,8 +222,9 @@ class AutoMountLayer(MountSource):
             else:
                 # This will fail with StenciledFile objects as returned by SQLiteIndexedTar mount sources and when
                 # given to backends like indexed_zstd, which do expect the file object to have a valid fileno.
+                fileObject = parentMountSource.open(archiveFileInfo)
                 mountSource = open_mount_source(
-                    parentMountSource.open(archiveFileInfo),
+                    fileObject,
                     tarFileName=pathInsideParentMountPoint.rsplit('/', 1)[-1],
                     **options,
                 )
@@ -228,13 +232,15 @@ class AutoMountLayer(MountSource):
             logger.warning(
                 "Mounting of '%s' failed because of: %s", path, exception, exc_info=logger.isEnabledFor(logging.DEBUG)
             )
+            if fileObject is not None:
+                fileObject.close()
             return None
 
         rootFileInfo = archiveFileInfo.clone()
         rootFileInfo.mode = create_folder_from_file_permissions(rootFileInfo.mode)
         rootFileInfo.linkname = ""
         rootFileInfo.userdata = [mountPoint]
-        mountInfo = AutoMountLayer.MountInfo(mountSource, rootFileInfo, recursionDepth)
+        mountInfo = AutoMountLayer.MountInfo(mountSource, rootFileInfo, recursionDepth, fileObject)
 
         # TODO What if the mount point already exists, e.g., because stripRecursiveTarExtension is true and there
         #      are multiple archives with the same name but different extensions?
@@ -418,6 +424,8 @@ class AutoMountLayer(MountSource):
         # E.g., rapidgzip still accesses the given file object on close and aborts the process if it is closed already.
         for mountInfo in reversed(list(self.mounted.values())):
             mountInfo.mountSource.__exit__(exception_type, exception_value, exception_traceback)
+            if mountInfo.fileObject is not None:
+                mountInfo.fileObject.close()
 
     def join_threads(self):
         for mountInfo in self.mounted.values():
diff --git a/core/ratarmountcore/mountsource/formats/ar.py b/core/ratarmountcore/mountsource/formats/ar.py
index 97b32e1..d1ec460 100644
--- a/core/ratarmountcore/mountsource/formats/ar.py
+++ b/core/ratarmountcore/mountsource/formats/ar.py
@@ -254,6 +254,12 @@ class ARMountSource(SQLiteIndexMountSource):
             ),
         )
 
+    @overrides(SQLiteIndexMountSource)
+    def close(self) -> None:
+        super().close()
+        if not self.isFileObject and (fileObject := getattr(self, 'fileObject', None)):
+            fileObject.close()
+
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
         if stat.S_ISLNK(fileInfo.mode):
diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index 17c6a92..81e036c 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -321,10 +321,19 @@ class IterableArchive:
         return self
 
     def __exit__(self, exception_type, exception_value, exception_traceback):
-        pass
+        self.close()
 
     def __del__(self):
-        laffi.read_free(self._archive)
+        self.close()
+
+    def close(self):
+        archive = self._archive
+        self._archive = None
+        if archive is not None:
+            laffi.read_free(archive)
+        # Break the reference cycles with the callbacks, which would delay closing until the next garbage collection.
+        self._readCallback = None
+        self._seekCallback = None
 
     def next_entry(self) -> Optional[ArchiveEntry]:
         if self._eof:
@@ -369,10 +378,16 @@ class IterableArchiveCache:
         # The WARC reader of libarchive, the only one that may not have a format name, does not correctly find
         # the next entry after some data has been read.
         if b'WARC' in (archive.format_name() or b'WARC'):
+            archive.close()
             return
         self._cache.append(archive)
         while len(self._cache) > self.cacheSize:
-            self._cache.pop(0)
+            self._cache.pop(0).close()
+
+    def close(self) -> None:
+        self.cacheSize = 0
+        while self._cache:
+            self._cache.pop().close()
 
     def take(self, entry_index: int) -> Optional[IterableArchive]:
         qualified = [i for i in range(len(self._cache)) if self._cache[i].entry_index() < entry_index]
@@ -637,9 +652,11 @@ class LibarchiveMountSource(SQLiteIndexMountSource):
             elif not gotAnyEntry and archive.format_name() == b'tar':
                 raise ArchiveError("Supposedly detected a TAR with no entries in it. Rejecting it as unknown format!")
 
-    def __del__(self):
-        # TODO check that all objects are really closed to avoid memory leaks
-        pass
+    @overrides(SQLiteIndexMountSource)
+    def close(self) -> None:
+        super().close()
+        if archiveCache := getattr(self, '_archiveCache', None):
+            archiveCache.close()
 
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
diff --git a/core/ratarmountcore/mountsource/formats/sqlar.py b/core/ratarmountcore/mountsource/formats/sqlar.py
index 3717552..1be68bc 100644
--- a/core/ratarmountcore/mountsource/formats/sqlar.py
+++ b/core/ratarmountcore/mountsource/formats/sqlar.py
@@ -153,7 +153,7 @@ class SQLARMountSource(MountSource):
     def __init__(
         self, fileOrPath: Union[str, IO[bytes]], passwords: Optional[Sequence[bytes]] = None, **options
     ) -> None:
-        self._temporaryFilePath: Optional[Any] = None
+        self._temporaryFile: Optional[Any] = None
 
         magicBytes = b""
         if isinstance(fileOrPath, str):
@@ -403,5 +403,5 @@ class SQLARMountSource(MountSource):
     @overrides(MountSource)
     def __exit__(self, exception_type, exception_value, exception_traceback):
         self.connection.close()
-        if self._temporaryFilePath:
-            self._temporaryFilePath.close()
+        if self._temporaryFile:
+            self._temporaryFile.close()
-- 
2.43.0


From daa016fd199293f7897904f26b828cafe86fab4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:49 +0000
Subject: [PATCH 74/92] fix: Mount sources in nested subvolumes could not be
 read and remained open

---
 .../mountsource/compositing/subvolumes.py     | 39 ++++++++++++-------
 1 file changed, 25 insertions(+), 14 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/subvolumes.py b/core/ratarmountcore/mountsource/compositing/subvolumes.py
index 3f15348..36f373f 100644
--- a/core/ratarmountcore/mountsource/compositing/subvolumes.py
+++ b/core/ratarmountcore/mountsource/compositing/subvolumes.py
@@ -38,10 +38,11 @@ class SubvolumesMountSource(MountSource):
         # Ensuring a leading slash before calling normpath has the effect of eating all leading '/..'.
         parent, name = ('/' + posixpath.normpath('/' + path).strip('/')).rsplit('/', maxsplit=1)
         try:
-            folder = self._get_by_path(parent, create=True)
+            folder = self._get_by_path(parent)
         except RatarmountError:
             return False
-        return bool(name) and folder is not None and isinstance(folder, dict) and (name not in folder)
+        # Missing parent folders will be created when mounting.
+        return bool(name) and (folder is None or (isinstance(folder, dict) and name not in folder))
 
     def mount(self, path: str, target: MountSource) -> bool:
         """Adds a mount source at the specified path. Must not overlap with existing mounts. Return true on success."""
@@ -119,6 +120,13 @@ class SubvolumesMountSource(MountSource):
                 return ('/'.join(parts[: i + 1]), '/' + '/'.join(parts[i + 1 :]), folder)
         return (path, "", folder)
 
+    def _get_subvolume(self, path: Optional[str]) -> MountSource:
+        """Returns the mount source for a mount point, which may be nested, as stored in the file info by lookup."""
+        mountSource = None if path is None else self._get_by_path(path)
+        if not isinstance(mountSource, MountSource):
+            raise ValueError(f"There is no mount source at: {path}")
+        return mountSource
+
     @overrides(MountSource)
     def is_immutable(self) -> bool:
         return False  # Because we support mount and unmount!
@@ -175,20 +183,16 @@ class SubvolumesMountSource(MountSource):
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
         subvolume = fileInfo.userdata.pop()
-        if subvolume is None:
-            raise ValueError(f"Found subvolume is None for fileInfo: {fileInfo}")
         try:
-            return self.mountSources[subvolume].open(fileInfo, buffering=buffering)
+            return self._get_subvolume(subvolume).open(fileInfo, buffering=buffering)
         finally:
             fileInfo.userdata.append(subvolume)
 
     @overrides(MountSource)
     def read(self, fileInfo: FileInfo, size: int, offset: int) -> bytes:
         subvolume = fileInfo.userdata.pop()
-        if subvolume is None:
-            raise ValueError(f"Found subvolume is None for fileInfo: {fileInfo}")
         try:
-            return self.mountSources[subvolume].read(fileInfo, size, offset)
+            return self._get_subvolume(subvolume).read(fileInfo, size, offset)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -196,7 +200,7 @@ class SubvolumesMountSource(MountSource):
     def list_xattr(self, fileInfo: FileInfo) -> builtins.list[str]:
         subvolume = fileInfo.userdata.pop()
         try:
-            return [] if subvolume is None else self.mountSources[subvolume].list_xattr(fileInfo)
+            return [] if subvolume is None else self._get_subvolume(subvolume).list_xattr(fileInfo)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -204,7 +208,7 @@ class SubvolumesMountSource(MountSource):
     def get_xattr(self, fileInfo: FileInfo, key: str) -> Optional[bytes]:
         subvolume = fileInfo.userdata.pop()
         try:
-            return None if subvolume is None else self.mountSources[subvolume].get_xattr(fileInfo, key)
+            return None if subvolume is None else self._get_subvolume(subvolume).get_xattr(fileInfo, key)
         finally:
             fileInfo.userdata.append(subvolume)
 
@@ -213,19 +217,26 @@ class SubvolumesMountSource(MountSource):
         sourceFileInfo = fileInfo.clone()
         subvolume = sourceFileInfo.userdata.pop()
 
-        if subvolume is None or subvolume not in self.mountSources:
+        mountSource = None if subvolume is None else self._get_by_path(subvolume)
+        if not isinstance(mountSource, MountSource):
             return '/', self, fileInfo
-        mountSource = self.mountSources[subvolume]
 
         subpath, subMountSource, subFileInfo = mountSource.get_mount_source(sourceFileInfo)
         return posixpath.normpath(f"/{subvolume}/{subpath}"), subMountSource, subFileInfo
 
+    def _get_all(self, folder: dict[str, Any]) -> Iterable[MountSource]:
+        for mounted in folder.values():
+            if isinstance(mounted, dict):
+                yield from self._get_all(mounted)
+            else:
+                yield mounted
+
     @overrides(MountSource)
     def __exit__(self, exception_type, exception_value, exception_traceback):
-        for mountSource in self.mountSources.values():
+        for mountSource in self._get_all(self.mountSources):
             mountSource.__exit__(exception_type, exception_value, exception_traceback)
 
     def join_threads(self):
-        for mountSource in self.mountSources:
+        for mountSource in self._get_all(self.mountSources):
             if hasattr(mountSource, 'join_threads'):
                 mountSource.join_threads()
-- 
2.43.0


From 24746b2b08fbb3e922ce9e8b9c539a6f69644818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:18 +0000
Subject: [PATCH 75/92] fix: Implied folders showed the extended attributes of
 the first file inside them

---
 core/ratarmountcore/SQLiteIndex.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index 7288285..a17129b 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -750,7 +750,7 @@ class SQLiteIndex:
                 /* path name offsetheader offset size mtime mode type */
                 SELECT path,name,offsetheader,offset,0,0,{int(0o555 | stat.S_IFDIR)},{int(tarfile.DIRTYPE)},
                        /* linkname uid gid istar issparse isgenerated recursiondepth */
-                       '',0,0,0,0,0,0
+                       '',0,0,0,0,1,0
                 FROM "parentfolders"
                 WHERE {searchByTuple if _get_libsqlite_version() >= (3, 22, 0) else searchByConcat}
                     FROM "files" WHERE mode & (1 << 14) != 0
-- 
2.43.0


From fecb5aed2a7d1778188a9d00aef0fb28e1bd9b1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:18 +0000
Subject: [PATCH 76/92] fix: Hashes of files in ASAR archives were mixed up

---
 core/ratarmountcore/mountsource/formats/asar.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/asar.py b/core/ratarmountcore/mountsource/formats/asar.py
index 04fe9a2..ea2f001 100644
--- a/core/ratarmountcore/mountsource/formats/asar.py
+++ b/core/ratarmountcore/mountsource/formats/asar.py
@@ -91,6 +91,7 @@ class ASARMountSource(SQLiteIndexMountSource):
             self.blockSize = os.fstat(self.fileObject.fileno()).st_blksize
 
         self.fileObjectLock = threading.Lock()
+        self._entryCount = 0
 
         self._finalize_index(self._create_index)
 
@@ -105,11 +106,15 @@ class ASARMountSource(SQLiteIndexMountSource):
         offset = dataOffset + int(entry.get("offset", "0"))
         size = int(entry.get("size", "0"))
 
+        # Extended attributes are stored by header offset, so it has to be unique.
+        headerOffset = self._entryCount
+        self._entryCount += 1
+
         # fmt: off
         fileInfo : tuple = (
             path              ,  # 0  : path
             name              ,  # 1  : file name
-            0                 ,  # 2  : header offset
+            headerOffset      ,  # 2  : header offset
             offset            ,  # 3  : data offset
             size              ,  # 4  : file size
             0                 ,  # 5  : modification time
-- 
2.43.0


From 9df52c254aa41adeb45a11b46bfa784896f8290e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:18 +0000
Subject: [PATCH 77/92] fix: Newly requested hashes were not computed for TARs
 with an existing index

---
 core/ratarmountcore/mountsource/formats/tar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 782b0ea..ab4a477 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -691,6 +691,11 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
         if self.index.index_is_loaded():
             if not self.hasBeenAppendedTo:  # indirectly set by a successful call to _try_load_index
                 self._load_or_store_compression_offsets()  # load
+                try:
+                    # Further hashes may be requested than those already stored in the index.
+                    self._compute_and_store_hashes()
+                except sqlite3.Error as exception:
+                    logger.warning("Could not update the index: %s", exception)
                 self.index.reload_index_read_only()
                 return
 
-- 
2.43.0


From 2a0bc5211912b3267a8ffa488557eee6d4502e86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:06:51 +0000
Subject: [PATCH 78/92] fix: Computed hashes of compressed single files were
 not stored

---
 core/ratarmountcore/mountsource/formats/tar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index ab4a477..9dbb351 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -1022,7 +1022,7 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
             fileInfo = (
                 ""                                    ,  # 0  : path
                 fname                                 ,  # 1  : file name
-                None                                  ,  # 2  : header offset
+                0                                     ,  # 2  : header offset
                 0                                     ,  # 3  : data offset
                 fileSize                              ,  # 4  : file size
                 tarInfo.st_mtime if tarInfo else mtime,  # 5  : modification time
-- 
2.43.0


From a9fb0384abe80b33ccec17fd571aaef8fd57a2be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:04 +0000
Subject: [PATCH 79/92] fix: Hard links inside nested and path-transformed TARs
 could not be resolved

---
 core/ratarmountcore/mountsource/formats/tar.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 9dbb351..2bef6ff 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -237,6 +237,13 @@ class _TarFileMetadataReader:
             fullPath += "/"
         path, name = SQLiteIndex.normpath(transform(fullPath)).rsplit("/", 1)
 
+        # The targets of hard links have to be found at the paths at which they are shown.
+        linkName = tarInfo.linkname
+        if tarInfo.islnk():
+            linkTarget = SQLiteIndex.normpath(transform(pathPrefix + "/" + linkName))
+            if linkTarget != SQLiteIndex.normpath("/" + linkName):
+                linkName = linkTarget.lstrip("/")
+
         # TODO: As for the tarfile type SQLite expects int but it is generally bytes.
         #       Most of them would be convertible to int like tarfile.SYMTYPE which is b'2',
         #       but others should throw errors, like GNUTYPE_SPARSE which is b'S'.
@@ -251,7 +258,7 @@ class _TarFileMetadataReader:
             tarInfo.mtime                                   ,  # 5  : modification time
             _TarFileMetadataReader._tar_info_full_mode(tarInfo),  # 6  : file mode / permissions
             tarInfo.type                                    ,  # 7  : TAR file type. Currently unused.
-            tarInfo.linkname                                ,  # 8  : linkname
+            linkName                                        ,  # 8  : linkname
             tarInfo.uid                                     ,  # 9  : user ID
             tarInfo.gid                                     ,  # 10 : group ID
             False                                           ,  # 11 : is TAR (unused?)
-- 
2.43.0


From 0037cf703d741d15836ab700689d29b599b1df79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:18:34 +0000
Subject: [PATCH 80/92] fix: Hard links in archives read with libarchive were
 shown as dangling symbolic links

---
 core/ratarmountcore/mountsource/formats/libarchive.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index 81e036c..0119f31 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -132,8 +132,11 @@ class ArchiveEntry:
 
         mode = self.mode() & 0o777
         linkname = self.linkname()
-        if linkname:
+        if linkname and self.is_symbolic_link():
             mode = mode | stat.S_IFLNK
+        elif linkname and not size:
+            # Same representation as for hard links in SQLiteIndexedTar: A target but no file type.
+            linkname = SQLiteIndex.normpath(transform(linkname)).lstrip("/")
         else:
             linkname = ""
             mode = mode | (stat.S_IFDIR if self.is_directory() else stat.S_IFREG)
-- 
2.43.0


From aa2ba7dcba438429599a2218f42c1eb226316888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 81/92] fix: A damaged nested archive which could not be listed
 prevented mounting everything else

---
 .../mountsource/compositing/automount.py      | 39 ++++++++++++-------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/core/ratarmountcore/mountsource/compositing/automount.py b/core/ratarmountcore/mountsource/compositing/automount.py
index c2ef29f..11c2e42 100644
--- a/core/ratarmountcore/mountsource/compositing/automount.py
+++ b/core/ratarmountcore/mountsource/compositing/automount.py
@@ -75,21 +75,30 @@ class AutoMountLayer(MountSource):
         while foldersToWalk:
             newFoldersToWalk = []
             for folder in foldersToWalk:
-                if self.get_recursion_depth(folder) > self.maxRecursionDepth:
-                    continue
-
-                fileNames = self.list(folder)
-                if not fileNames:
-                    continue
-
-                for fileName in fileNames:
-                    filePath = os.path.join(folder, fileName)
-                    if self.is_dir(filePath):
-                        newFoldersToWalk.append(filePath)
-                    else:
-                        mountPoint = self._try_to_mount_file(filePath)
-                        if mountPoint:
-                            newFoldersToWalk.append(mountPoint)
+                # A damaged nested archive, which can be opened but not listed, must not affect the others.
+                try:
+                    if self.get_recursion_depth(folder) > self.maxRecursionDepth:
+                        continue
+
+                    fileNames = self.list(folder)
+                    if not fileNames:
+                        continue
+
+                    for fileName in fileNames:
+                        filePath = os.path.join(folder, fileName)
+                        if self.is_dir(filePath):
+                            newFoldersToWalk.append(filePath)
+                        else:
+                            mountPoint = self._try_to_mount_file(filePath)
+                            if mountPoint:
+                                newFoldersToWalk.append(mountPoint)
+                except Exception as exception:
+                    logger.warning(
+                        "Looking for archives inside '%s' failed because of: %s",
+                        folder,
+                        exception,
+                        exc_info=logger.isEnabledFor(logging.DEBUG),
+                    )
 
             foldersToWalk = newFoldersToWalk
 
-- 
2.43.0


From 64a92e2d217f569f2d7cba0ef72e2c4ad999a58f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 82/92] fix: TARs cut off inside a sparse map could not be
 opened at all

---
 core/ratarmountcore/mountsource/formats/tar.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index 2bef6ff..b565d3e 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -398,6 +398,14 @@ class _TarFileMetadataReader:
 
         return []
 
+    @staticmethod
+    def _iterate(loadedTarFile):
+        try:
+            yield from loadedTarFile
+        except (IndexError, ValueError) as exception:
+            # The tarfile module does not check for the end of file while reading sparse maps.
+            raise tarfile.ReadError("unexpected end of data") from exception
+
     def _process_serial(self, fileObject: IO[bytes], pathPrefix: str, streamOffset: int) -> Iterable[tuple]:
         """
         Opens the given fileObject using the tarfile module, iterates over all files converting their metadata to
@@ -421,7 +429,7 @@ class _TarFileMetadataReader:
         self._lastUpdateTime = time.time()
 
         try:
-            for tarInfo in loadedTarFile:
+            for tarInfo in _TarFileMetadataReader._iterate(loadedTarFile):
                 # Clear this in order to limit memory usage by tarfile.
                 loadedTarFile.members = []
                 # Note that the .members trick already assumes that we are only iterating over the tar file once.
-- 
2.43.0


From 01d2d0a8b7e31628bc1fda552bdd23c8bcf0907d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:32:24 +0000
Subject: [PATCH 83/92] fix: SQLAR files cut off inside the last page showed
 zeros instead of an error

---
 core/ratarmountcore/mountsource/formats/sqlar.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/core/ratarmountcore/mountsource/formats/sqlar.py b/core/ratarmountcore/mountsource/formats/sqlar.py
index 1be68bc..c96a4bc 100644
--- a/core/ratarmountcore/mountsource/formats/sqlar.py
+++ b/core/ratarmountcore/mountsource/formats/sqlar.py
@@ -1,3 +1,4 @@
+import os
 import posixpath
 import shutil
 import sqlite3
@@ -177,6 +178,7 @@ class SQLARMountSource(MountSource):
             # check_same_thread=False can be used because it is read-only and allows to enable FUSE multithreading.
             connection = sqlite3.connect(uriPath, uri=True, check_same_thread=False)
             SQLARMountSource._check_database(connection)
+            SQLARMountSource._check_file_size(connection, self.indexFilePath)
         except sqlite3.DatabaseError:
             if connection:
                 connection.close()
@@ -235,6 +237,15 @@ class SQLARMountSource(MountSource):
         result = connection.execute("SELECT name FROM sqlar LIMIT 1;").fetchone()
         return result and result[0]
 
+    @staticmethod
+    def _check_file_size(connection, path: str) -> None:
+        # SQLite refuses databases with missing pages but silently fills up an incomplete last page with zeros.
+        pageCount = connection.execute("PRAGMA page_count;").fetchone()[0]
+        pageSize = connection.execute("PRAGMA page_size;").fetchone()[0]
+        fileSize = os.path.getsize(path)
+        if fileSize % pageSize != 0 and fileSize < pageCount * pageSize:
+            raise sqlite3.DatabaseError("The last page of the SQLAR file is incomplete.")
+
     @staticmethod
     def _find_password(uriPath: str, passwords: Sequence[bytes], salt: bytes):
         for password in passwords:
-- 
2.43.0


From 951bb4c474caad3a0b78eef998051541290086c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:56 +0000
Subject: [PATCH 84/92] fix: Importing an index after reading with multiple
 threads made later reads of gzip files fail

---
 .../ratarmountcore/mountsource/formats/tar.py | 26 ++++++++++++-------
 1 file changed, 17 insertions(+), 9 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/tar.py b/core/ratarmountcore/mountsource/formats/tar.py
index b565d3e..1d866c9 100644
--- a/core/ratarmountcore/mountsource/formats/tar.py
+++ b/core/ratarmountcore/mountsource/formats/tar.py
@@ -637,15 +637,7 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
         # compression   : Stores what kind of compression the originally specified TAR file uses.
         # isTar         : Can be false for the degenerated case of only a bz2 or gz file not containing a TAR
         self.compression: Optional[FileFormatID] = None
-        self.tarFileObject, self.rawFileObject, self.compression = open_compressed_file(
-            fileObject,
-            gzipSeekPointSpacing=gzipSeekPointSpacing,
-            parallelizations=self.parallelizations,
-            enabledBackends=[
-                backend for backend, info in COMPRESSION_BACKENDS.items() if info.delegatedArchiveBackend == 'tarfile'
-            ],
-            prioritizedBackends=self.prioritizedBackends,
-        )
+        self.tarFileObject, self.rawFileObject, self.compression = self._open_compressed_file(fileObject)
         self.isTar = might_be_format(self.tarFileObject, FileFormatID.TAR)
         if not self.isTar:
             logger.debug("File object %s from %s is not a TAR.", self.tarFileObject, self.tarFileName)
@@ -705,6 +697,11 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
 
         if self.index.index_is_loaded():
             if not self.hasBeenAppendedTo:  # indirectly set by a successful call to _try_load_index
+                # Reading with multiple threads before importing an index into a RapidgzipFile results in errors or even
+                # crashes when reading after it. Therefore, reopen it because it has already been read from by now.
+                if 'rapidgzip' in sys.modules and isinstance(self.tarFileObject, rapidgzip.RapidgzipFile):
+                    self.tarFileObject.close()
+                    self.tarFileObject, self.rawFileObject, self.compression = self._open_compressed_file(fileObject)
                 self._load_or_store_compression_offsets()  # load
                 try:
                     # Further hashes may be requested than those already stored in the index.
@@ -1470,6 +1467,17 @@ class SQLiteIndexedTar(SQLiteIndexMountSource):
 
         return False
 
+    def _open_compressed_file(self, fileObject: IO[bytes]):
+        return open_compressed_file(
+            fileObject,
+            gzipSeekPointSpacing=self.gzipSeekPointSpacing,
+            parallelizations=self.parallelizations,
+            enabledBackends=[
+                backend for backend, info in COMPRESSION_BACKENDS.items() if info.delegatedArchiveBackend == 'tarfile'
+            ],
+            prioritizedBackends=self.prioritizedBackends,
+        )
+
     def _load_or_store_compression_offsets(self):
         if self.compression:
             self.index.synchronize_compression_offsets(self.tarFileObject, self.compression)
-- 
2.43.0


From 63b06e836f24d1b0d21d808f5d83569a3ced2949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:44 +0000
Subject: [PATCH 85/92] fix: Index and SQLAR database connections could not be
 used from several threads at once

---
 core/ratarmountcore/SQLiteIndex.py            | 56 +++++++++----------
 .../mountsource/formats/sqlar.py              | 28 +++++++---
 2 files changed, 47 insertions(+), 37 deletions(-)

diff --git a/core/ratarmountcore/SQLiteIndex.py b/core/ratarmountcore/SQLiteIndex.py
index a17129b..e8c5e52 100644
--- a/core/ratarmountcore/SQLiteIndex.py
+++ b/core/ratarmountcore/SQLiteIndex.py
@@ -11,6 +11,7 @@ import stat
 import sys
 import tarfile
 import tempfile
+import threading
 import time
 import urllib.parse
 from collections.abc import Sequence
@@ -259,6 +260,9 @@ class SQLiteIndex:
         """
 
         self.sqlConnection: Optional[sqlite3.Connection] = None
+        # The connection may be used from multiple threads, but sqlite3 itself does not serialize the execution of
+        # cached statements and the fetching of their results.
+        self._connectionLock = threading.RLock()
         self.archiveFilePath = archiveFilePath
         self._requestedIndexFilePath = indexFilePath
         # Will hold the actually opened valid path to an index file
@@ -429,6 +433,14 @@ class SQLiteIndex:
             return self.sqlConnection
         raise IndexNotOpenError("This method can not be called without an opened index database!")
 
+    def _query(self, query: str, parameters: Sequence = (), rowFactory: Optional[Callable] = None) -> builtins.list:
+        # Do not change the row factory of the connection, which may be in use by other threads.
+        with self._connectionLock:
+            cursor = self.get_connection().cursor()
+            if rowFactory:
+                cursor.row_factory = rowFactory
+            return cursor.execute(query, parameters).fetchall()
+
     def _store_versions_metadata(self) -> None:
         connection = self.get_connection()
 
@@ -677,7 +689,8 @@ class SQLiteIndex:
         if logger.isEnabledFor(logging.WARNING):
             print("Creating new SQLite index database at", indexFilePath)
 
-        sqlConnection = SQLiteIndex._open_sql_db(indexFilePath)
+        # check_same_thread=False can be used because all queries are serialized with a lock.
+        sqlConnection = SQLiteIndex._open_sql_db(indexFilePath, check_same_thread=False)
         tables = get_sqlite_tables(sqlConnection)
         conflicting_tables = sorted({"files", "filestmp", "parentfolders", "xattrs"}.intersection(tables))
         if conflicting_tables:
@@ -940,7 +953,7 @@ class SQLiteIndex:
             return None
 
         # https://www.sqlite.org/pragma.html#pragma_table_info
-        columns = [row[0] for row in self.get_connection().execute("SELECT name FROM PRAGMA_TABLE_INFO('files');")]
+        columns = [row[0] for row in self._query("SELECT name FROM PRAGMA_TABLE_INFO('files');")]
         selected_columns = ['name', 'size', 'mtime', 'mode', 'linkname', 'uid', 'gid', 'offset', 'istar']
         # Both were added in index 0.2.0.
         if 'offsetheader' in columns and 'issparse' in columns:
@@ -971,15 +984,13 @@ class SQLiteIndex:
             )
             # fmt: on
 
-        oldRowFactory = self.get_connection().row_factory
-        self.get_connection().row_factory = row_to_file_info
         directory: dict[str, FileInfo] = dict(
-            self.get_connection().execute(
+            self._query(
                 'SELECT ' + ','.join(selected_columns) + ' FROM "files" WHERE "path" == (?) ORDER BY "offsetheader"',
                 (self._query_normpath(path).rstrip('/'),),
+                row_to_file_info,
             )
         )
-        self.get_connection().row_factory = oldRowFactory
 
         gotResults = bool(directory)
         directory.pop('', None)
@@ -998,13 +1009,10 @@ class SQLiteIndex:
 
         # See comments in list.
         # The only difference here is that we do not request all columns, but only two in a tuple.
-        oldRowFactory = self.get_connection().row_factory
-        self.get_connection().row_factory = None
-        rows = self.get_connection().execute(
+        rows = self._query(
             'SELECT name,mode FROM "files" WHERE "path" == (?) ORDER BY "offsetheader"',
             (self._query_normpath(path).rstrip('/'),),
         )
-        self.get_connection().row_factory = oldRowFactory
 
         directory = {row[0]: row[1] for row in rows}
         gotResults = bool(directory)
@@ -1027,7 +1035,7 @@ class SQLiteIndex:
             return {}
 
         path, name = path.rsplit('/', 1)
-        rows = self.get_connection().execute(
+        rows = self._query(
             'SELECT * FROM "files" WHERE "path" == (?) AND "name" == (?) ORDER BY "offsetheader" ASC', (path, name)
         )
         return {str(version + 1): self._row_to_file_info(row) for version, row in enumerate(rows)}
@@ -1053,20 +1061,16 @@ class SQLiteIndex:
             return None
 
         path, name = path.rsplit('/', 1)
-        row = (
-            self.get_connection()
-            .execute(
-                f"""
+        rows = self._query(
+            f"""
             SELECT * FROM "files"
             WHERE "path" == (?) AND "name" == (?)
             ORDER BY "offsetheader" {'DESC' if fileVersion is None or fileVersion <= 0 else 'ASC'}
             LIMIT 1 OFFSET (?);
             """,
-                (path, name, 0 if fileVersion is None else fileVersion - 1 if fileVersion > 0 else -fileVersion),
-            )
-            .fetchone()
+            (path, name, 0 if fileVersion is None else fileVersion - 1 if fileVersion > 0 else -fileVersion),
         )
-        return self._row_to_file_info(row) if row else None
+        return self._row_to_file_info(rows[0]) if rows else None
 
     def setxattrs(self, rows: Sequence[tuple[int, str, bytes]]):
         # We cannot use "OR REPLACE" here, or else it will override the TRIGGER behavior on the xattrs view!
@@ -1085,9 +1089,7 @@ class SQLiteIndex:
             # but currently only TAR supports attributes anyways.
             return [
                 row[0]
-                for row in self.get_connection().execute(
-                    "SELECT key FROM xattrs WHERE offsetheader=(?);", (userData.offsetheader,)
-                )
+                for row in self._query("SELECT key FROM xattrs WHERE offsetheader=(?);", (userData.offsetheader,))
             ]
         except sqlite3.OperationalError:
             # May happen when loading old indexes that do not have the xattrs table.
@@ -1103,12 +1105,10 @@ class SQLiteIndex:
             return None
 
         try:
-            row = (
-                self.get_connection()
-                .execute("SELECT value FROM xattrs WHERE (offsetheader,key)=(?,?);", (userData.offsetheader, key))
-                .fetchone()
+            rows = self._query(
+                "SELECT value FROM xattrs WHERE (offsetheader,key)=(?,?);", (userData.offsetheader, key)
             )
-            return row[0] if row else None
+            return rows[0][0] if rows else None
         except sqlite3.OperationalError:
             # May happen when loading old indexes that do not have the xattrs table.
             pass
@@ -1362,7 +1362,7 @@ class SQLiteIndex:
             # check_same_thread=False can be used because it is read-only and it allows to enable FUSE multithreading
             self.sqlConnection = SQLiteIndex._open_sql_db(f"file:{uriPath}?mode=ro", uri=True, check_same_thread=False)
         else:
-            self.sqlConnection = SQLiteIndex._open_sql_db(temporaryIndexFilePath)
+            self.sqlConnection = SQLiteIndex._open_sql_db(temporaryIndexFilePath, check_same_thread=False)
         try:
             tables = get_sqlite_tables(self.sqlConnection)
             versions = None
diff --git a/core/ratarmountcore/mountsource/formats/sqlar.py b/core/ratarmountcore/mountsource/formats/sqlar.py
index c96a4bc..5581340 100644
--- a/core/ratarmountcore/mountsource/formats/sqlar.py
+++ b/core/ratarmountcore/mountsource/formats/sqlar.py
@@ -1,9 +1,11 @@
+import builtins
 import os
 import posixpath
 import shutil
 import sqlite3
 import sys
 import tempfile
+import threading
 import urllib.parse
 from collections.abc import Iterable, Sequence
 from typing import IO, Any, Optional, Union
@@ -189,6 +191,9 @@ class SQLARMountSource(MountSource):
                 raise
         assert connection
         self.connection = connection
+        # The connection may be used from multiple threads, but sqlite3 itself does not serialize the execution of
+        # cached statements and the fetching of their results.
+        self._connectionLock = threading.RLock()
 
         self.options = options
 
@@ -209,6 +214,10 @@ class SQLARMountSource(MountSource):
                     path = path.rsplit('/', 1)[0]
                     self._files.setdefault(path, None)
 
+    def _query(self, query: str, parameters: Sequence = ()) -> builtins.list:
+        with self._connectionLock:
+            return self.connection.execute(query, parameters).fetchall()
+
     @staticmethod
     def _normalize(name: str) -> str:
         # Prepend '/' to ensure that normpath collapses all leading '..', which must not appear as names.
@@ -335,7 +344,7 @@ class SQLARMountSource(MountSource):
         prefix = self._get_prefix(path)
         return {
             name: SQLARMountSource._convert_to_file_info(rowid, mode, mtime, size, linkname)
-            for name, rowid, mode, mtime, size, linkname in self.connection.execute(
+            for name, rowid, mode, mtime, size, linkname in self._query(
                 f"SELECT substr(name,(?)),{SQLARMountSource._SQLITE_FILEINFO_COLUMNS} FROM sqlar "
                 "WHERE substr(name,1,(?)) == (?) AND instr(substr(name,(?)),'/') == 0",
                 (len(prefix) + 1, len(prefix), prefix, len(prefix) + 1),
@@ -352,7 +361,7 @@ class SQLARMountSource(MountSource):
 
         prefix = self._get_prefix(path)
         return dict(
-            self.connection.execute(
+            self._query(
                 "SELECT substr(name,(?)), mode FROM sqlar "
                 "WHERE substr(name,1,(?)) == (?) AND instr(substr(name,(?)),'/') == 0",
                 (len(prefix) + 1, len(prefix), prefix, len(prefix) + 1),
@@ -380,15 +389,15 @@ class SQLARMountSource(MountSource):
             if rowid is None:
                 return create_root_file_info([-1])
 
-            result = self.connection.execute(
+            rows = self._query(
                 f"SELECT {SQLARMountSource._SQLITE_FILEINFO_COLUMNS} FROM sqlar WHERE rowid=(?)", (rowid,)
-            ).fetchone()
+            )
         else:
-            result = self.connection.execute(
+            rows = self._query(
                 f"SELECT {SQLARMountSource._SQLITE_FILEINFO_COLUMNS} FROM sqlar WHERE name=(?)", (path,)
-            ).fetchone()
+            )
 
-        return self._convert_to_file_info(*result) if result else None
+        return self._convert_to_file_info(*rows[0]) if rows else None
 
     @overrides(MountSource)
     def open(self, fileInfo: FileInfo, buffering=-1) -> IO[bytes]:
@@ -396,9 +405,10 @@ class SQLARMountSource(MountSource):
         rowid = fileInfo.userdata[-1]
         assert isinstance(rowid, int)
 
-        result = self.connection.execute("SELECT sz,LENGTH(data) FROM sqlar WHERE rowid == (?);", (rowid,)).fetchone()
-        if not result:
+        rows = self._query("SELECT sz,LENGTH(data) FROM sqlar WHERE rowid == (?);", (rowid,))
+        if not rows:
             raise FileNotFoundError(f"[SQLARMountSource] rowid: {rowid}")
+        result = rows[0]
 
         # Simply because we can, already try to use the new Python 3.11 sqlite3.Connection.blobopen helper!
         # Does not work for sqlcipher3 0.5.4!
-- 
2.43.0


From de33c0b28689d4feac584b7324b7450b8991144e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:44 +0000
Subject: [PATCH 86/92] fix: Concurrent reads of files in SquashFS images
 returned wrong data

---
 .../mountsource/formats/squashfs.py           | 28 +++++++++++++++++--
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/squashfs.py b/core/ratarmountcore/mountsource/formats/squashfs.py
index d72a9cb..6fa589d 100644
--- a/core/ratarmountcore/mountsource/formats/squashfs.py
+++ b/core/ratarmountcore/mountsource/formats/squashfs.py
@@ -5,6 +5,7 @@ import io
 import logging
 import os
 import stat
+import threading
 import zlib
 from pathlib import Path
 from typing import IO, Any, Optional, Union
@@ -42,15 +43,18 @@ except ImportError:
         def _initialize(self):
             pass
 
-        # These are not overridden, only called:
+        def _read_data_block(self, start, size):
+            raise NotImplementedError
 
         def _read_block_list(self, start, offset, blocks):
             raise NotImplementedError
 
-        def _read_fragment(self, fragment):
+        def _read_inode(self, start_block, offset):
             raise NotImplementedError
 
-        def _read_inode(self, start_block, offset):
+        # These are not overridden, only called:
+
+        def _read_fragment(self, fragment):
             raise NotImplementedError
 
         def _opendir(self, block_start, offset):
@@ -299,8 +303,26 @@ class SquashFSImage(SquashFsImage):
     @overrides(SquashFsImage)
     def __init__(self, *args, **kwargs):
         self._real_root = None
+        self._lock = threading.RLock()
         super().__init__(*args, **kwargs)  # Calls overridden _initialize
 
+    # Protect everything seeking and reading the underlying file object, or using the shared decompressor.
+
+    @overrides(SquashFsImage)
+    def _read_data_block(self, *args):
+        with self._lock:
+            return super()._read_data_block(*args)
+
+    @overrides(SquashFsImage)
+    def _read_block_list(self, *args):
+        with self._lock:
+            return super()._read_block_list(*args)
+
+    @overrides(SquashFsImage)
+    def _read_inode(self, *args):
+        with self._lock:
+            return super()._read_inode(*args)
+
     @overrides(SquashFsImage)
     def _get_compressor(self, compression_id):
         if compression_id == Compression.ZLIB:
-- 
2.43.0


From 7507f23569a739b53848c00c08a747da736a92e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:44 +0000
Subject: [PATCH 87/92] fix: Concurrent opens of files with libarchive took the
 wrong cached archive

---
 .../mountsource/formats/libarchive.py         | 28 +++++++++++--------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/libarchive.py b/core/ratarmountcore/mountsource/formats/libarchive.py
index 0119f31..eb32624 100644
--- a/core/ratarmountcore/mountsource/formats/libarchive.py
+++ b/core/ratarmountcore/mountsource/formats/libarchive.py
@@ -376,6 +376,7 @@ class IterableArchiveCache:
     def __init__(self, cacheSize: int = 5):
         self.cacheSize = cacheSize
         self._cache: list[IterableArchive] = []
+        self._lock = threading.Lock()
 
     def insert(self, archive: IterableArchive):
         # The WARC reader of libarchive, the only one that may not have a format name, does not correctly find
@@ -383,22 +384,25 @@ class IterableArchiveCache:
         if b'WARC' in (archive.format_name() or b'WARC'):
             archive.close()
             return
-        self._cache.append(archive)
-        while len(self._cache) > self.cacheSize:
-            self._cache.pop(0).close()
+        with self._lock:
+            self._cache.append(archive)
+            while len(self._cache) > self.cacheSize:
+                self._cache.pop(0).close()
 
     def close(self) -> None:
-        self.cacheSize = 0
-        while self._cache:
-            self._cache.pop().close()
+        with self._lock:
+            self.cacheSize = 0
+            while self._cache:
+                self._cache.pop().close()
 
     def take(self, entry_index: int) -> Optional[IterableArchive]:
-        qualified = [i for i in range(len(self._cache)) if self._cache[i].entry_index() < entry_index]
-        if not qualified:
-            return None
-        # Find the archive with the closest (highest) index not larger or equal than the requested one
-        result = max(qualified, key=lambda i: self._cache[i].entry_index())
-        return self._cache.pop(result)
+        with self._lock:
+            qualified = [i for i in range(len(self._cache)) if self._cache[i].entry_index() < entry_index]
+            if not qualified:
+                return None
+            # Find the archive with the closest (highest) index not larger or equal than the requested one
+            result = max(qualified, key=lambda i: self._cache[i].entry_index())
+            return self._cache.pop(result)
 
 
 class LibarchiveFile(io.RawIOBase):
-- 
2.43.0


From 281bc3c0f2a20197b834b00b74be0becd5e124b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:01:44 +0000
Subject: [PATCH 88/92] fix: Concurrent reads of files in RARs given as file
 objects returned wrong data

---
 .../ratarmountcore/mountsource/formats/rar.py | 28 +++++++++++++++++--
 1 file changed, 26 insertions(+), 2 deletions(-)

diff --git a/core/ratarmountcore/mountsource/formats/rar.py b/core/ratarmountcore/mountsource/formats/rar.py
index 88cc46d..a3521fd 100644
--- a/core/ratarmountcore/mountsource/formats/rar.py
+++ b/core/ratarmountcore/mountsource/formats/rar.py
@@ -4,12 +4,14 @@ import datetime
 import posixpath
 import stat
 import sys
+import threading
 import time
 from collections.abc import Iterable
-from typing import IO, Optional, Union
+from typing import IO, Optional, Union, cast
 
 from ratarmountcore.formats import FileFormatID, replace_format_check
 from ratarmountcore.mountsource import FileInfo, MountSource, create_root_file_info
+from ratarmountcore.StenciledFile import RawStenciledFile
 from ratarmountcore.utils import get_groupid, get_userid, overrides
 
 with contextlib.suppress(ImportError):
@@ -39,6 +41,23 @@ def is_rar_file(fileObject: IO[bytes]) -> bool:
 replace_format_check(FileFormatID.RAR, is_rar_file)
 
 
+class LockedRarFile(RawStenciledFile):
+    """All files opened by rarfile for an archive given as a file object share the position of that file object."""
+
+    def __init__(self, file: IO[bytes], size: int, lock) -> None:
+        super().__init__([(file, 0, size)], lock)
+        self._file = file
+
+    @overrides(RawStenciledFile)
+    def close(self) -> None:
+        self._file.close()
+        super().close()
+
+    @overrides(RawStenciledFile)
+    def __exit__(self, exception_type, exception_value, exception_traceback):
+        self.close()
+
+
 class RarMountSource(MountSource):
     # Basically copy paste of ZipMountSource because the interfaces are very similar.
     def __init__(self, fileOrPath: Union[str, IO[bytes]], **options) -> None:
@@ -46,6 +65,7 @@ class RarMountSource(MountSource):
             raise RuntimeError("Did not find the rarfile module. Try: pip install rarfile")
 
         self.fileObject = rarfile.RarFile(fileOrPath, 'r')
+        self.fileObjectLock = None if isinstance(fileOrPath, str) else threading.Lock()
         RarMountSource._find_password(self.fileObject, options.get("passwords", []))
 
         self.files = {RarMountSource._clean_path(info.filename): info for info in self.fileObject.infolist()}
@@ -208,7 +228,11 @@ class RarMountSource(MountSource):
         # I do not see any obvious option to rarfile.RarFile to apply the specified buffer size.
         info = fileInfo.userdata[-1][1]
         assert isinstance(info, rarfile.RarInfo)
-        return self.fileObject.open(info, 'r')
+        if self.fileObjectLock is None:
+            return self.fileObject.open(info, 'r')
+        with self.fileObjectLock:
+            file = self.fileObject.open(info, 'r')
+        return cast(IO[bytes], LockedRarFile(file, info.file_size, self.fileObjectLock))
 
     @overrides(MountSource)
     def __exit__(self, exception_type, exception_value, exception_traceback):
-- 
2.43.0


From c60f69a4a0bfadc299e43a044a25cae7b9f95507 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:05:49 +0000
Subject: [PATCH 89/92] fix: --disable-union-mount could not be combined with
 --control-interface or --write-overlay

---
 ratarmount/FuseMount.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 6431e19..1bc3017 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -200,6 +200,13 @@ class FuseMount(fuse.Operations):
             if options.get('lazyMounting', False):
                 self._filter_index_locations_in_fuse_mount(options)
 
+        # The write overlay and control interface are no subvolumes. They are layered over the root of all subvolumes.
+        layers = [mountSources.pop()] if self.overlayPath and mountSources else []
+        if len(mountSources) > 1 and options.get('disableUnionMount', False):
+            mountSources = [('/', self._create_subvolumes(mountSources))]
+            self._subvolumes = cast(SubvolumesMountSource, mountSources[0][1])
+        mountSources += layers
+
         # Open log file.
         openLog: Optional[Callable[[int], IO[bytes]]] = None
         if not logFilePath and self._enableControlInterface:
@@ -241,10 +248,8 @@ class FuseMount(fuse.Operations):
             raise ValueError("Mount point is empty! Either specify some input files or enable the control interface!")
 
         self.mountSource: MountSource = (
-            mountSources[0][1] if len(mountSources) == 1 else self._create_multi_mount(mountSources, options)
+            mountSources[0][1] if len(mountSources) == 1 else UnionMountSource([x[1] for x in mountSources], **options)
         )
-        if isinstance(self.mountSource, SubvolumesMountSource):
-            self._subvolumes = self.mountSource
 
         if determine_recursion_depth(**options) > 0:
             self.mountSource = AutoMountLayer(self.mountSource, **options)
@@ -462,7 +467,10 @@ class FuseMount(fuse.Operations):
     def _create_multi_mount(mountSources: list[tuple[str, MountSource]], options: dict) -> MountSource:
         if not options.get('disableUnionMount', False):
             return UnionMountSource([x[1] for x in mountSources], **options)
+        return FuseMount._create_subvolumes(mountSources)
 
+    @staticmethod
+    def _create_subvolumes(mountSources: list[tuple[str, MountSource]]) -> SubvolumesMountSource:
         # Create unique keys.
         submountSources: dict[str, MountSource] = {}
         suffix = 1
-- 
2.43.0


From 0912a7b8c5dd971b913f35e593526749da36cfa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:14:10 +0000
Subject: [PATCH 90/92] fix: Lazily bind-mounting a folder over itself wrote
 indexes into wrong places

---
 ratarmount/FuseMount.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/ratarmount/FuseMount.py b/ratarmount/FuseMount.py
index 1bc3017..e215cb8 100644
--- a/ratarmount/FuseMount.py
+++ b/ratarmount/FuseMount.py
@@ -438,8 +438,8 @@ class FuseMount(fuse.Operations):
             if options['indexFilePath'].count('://') == 1:
                 fileURLPrefix = 'file://'
                 indexFilePath = indexFilePath.removeprefix(fileURLPrefix)
-            if '://' not in indexFilePath:
-                indexFilePath = os.path.realpath(options['indexFilePath'])
+            if '://' not in indexFilePath and indexFilePath != ':memory:':
+                indexFilePath = os.path.realpath(os.path.expanduser(indexFilePath))
 
             if self._path_provided_by_us(indexFilePath) is not None:
                 del options['indexFilePath']
@@ -447,13 +447,18 @@ class FuseMount(fuse.Operations):
                 options['indexFilePath'] = indexFilePath
                 hasIndexPath = True
 
-        if 'indexFolders' in options and isinstance(options['indexFolders'], list):
+        if 'indexFolders' in options and isinstance(options['indexFolders'], (list, str)):
             indexFolders = options['indexFolders']
             newIndexFolders = []
-            for folder in indexFolders:
-                if self._path_provided_by_us(folder) is not None:
+            for folder in [indexFolders] if isinstance(indexFolders, str) else indexFolders:
+                if not folder:
+                    # Stands for the folder of the archive itself, which is inside the FUSE mount for self bind mounts.
+                    if self.selfBindMount is None:
+                        newIndexFolders.append(folder)
                     continue
-                newIndexFolders.append(os.path.realpath(folder))
+                folder = os.path.expanduser(folder)
+                if self._path_provided_by_us(folder) is None:
+                    newIndexFolders.append(folder if '://' in folder else os.path.realpath(folder))
             options['indexFolders'] = newIndexFolders
             if newIndexFolders:
                 hasIndexPath = True
-- 
2.43.0


From 37ee92c041c7fa7e8492f4cef4706ad45387f7d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:23:55 +0000
Subject: [PATCH 91/92] fix: --commit-overlay without --write-overlay ended in
 an unhandled TypeError

---
 ratarmount/WriteOverlay.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ratarmount/WriteOverlay.py b/ratarmount/WriteOverlay.py
index b06926c..241191c 100644
--- a/ratarmount/WriteOverlay.py
+++ b/ratarmount/WriteOverlay.py
@@ -688,7 +688,7 @@ class WritableFolderMountSource(fuse.Operations):
 
 
 def commit_overlay(writeOverlay: str, tarFile: str, encoding: str = tarfile.ENCODING, printDebug: int = 0) -> None:
-    if not os.path.isdir(writeOverlay):
+    if not writeOverlay or not os.path.isdir(writeOverlay):
         raise RatarmountError("Need an existing write overlay folder for committing changes.")
 
     if not os.path.isfile(tarFile):
-- 
2.43.0


From ad9363344427b712032cb4e885667dea2a8d7e90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:02 +0000
Subject: [PATCH 92/92] fix: Negative recursion depths disabled recursion
 instead of being infinite as documented

---
 core/ratarmountcore/utils.py | 8 +++++---
 ratarmount/CLIHelpers.py     | 2 +-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/core/ratarmountcore/utils.py b/core/ratarmountcore/utils.py
index ca00933..e0a4da1 100644
--- a/core/ratarmountcore/utils.py
+++ b/core/ratarmountcore/utils.py
@@ -332,10 +332,12 @@ def determine_recursion_depth(recursive: bool = False, recursionDepth: Optional[
     """
     'recursionDepth' has higher precedence than 'recursive' if specified.
     Can be called directly i.e. f(a,b) or with kwargs f(**options) for which unknown keys will be ignored.
-    Returns a real recursion depth. -1 or any negative has no special meaning, but it should effectively
-    result in no recursion.
+    Negative values for 'recursionDepth' stand for infinite recursion.
+    Returns a real, i.e., non-negative, recursion depth.
     """
-    return (sys.maxsize if recursive else 0) if recursionDepth is None else recursionDepth
+    if recursionDepth is None:
+        return sys.maxsize if recursive else 0
+    return sys.maxsize if recursionDepth < 0 else recursionDepth
 
 
 def compute_entropy(data: bytes) -> float:
diff --git a/ratarmount/CLIHelpers.py b/ratarmount/CLIHelpers.py
index 5b99471..a1529fa 100644
--- a/ratarmount/CLIHelpers.py
+++ b/ratarmount/CLIHelpers.py
@@ -184,7 +184,7 @@ def process_trivial_parsed_arguments(args):
     args.gzipSeekPointSpacing = int(args.gzip_seek_point_spacing * 1024 * 1024)
 
     if (args.strip_recursive_tar_extension or args.transform_recursive_mount_point) and determine_recursion_depth(
-        recursive=args.recursive, recursion_depth=args.recursion_depth
+        recursive=args.recursive, recursionDepth=args.recursion_depth
     ) <= 0:
         logger.warning(
             "The options --strip-recursive-tar-extension and --transform-recursive-mount-point only have an "
-- 
2.43.0

