From 10468b87c312846b809286880733b2692a4ec4b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:58 +0000
Subject: [PATCH 01/68] fix: deliver exactly the requested bytes from
 decompressing streams

DecompressMemMapReader.read() miscounted the bytes taken from its header
buffer when it had to continue decompressing, and returned nothing at all if
the window was too small for zlib to produce output. compressed_bytes_read()
never ended for empty objects. Streams that end before the announced size are
now reported instead of being read short.
---
 gitdb/stream.py | 79 ++++++++++++++++++++++++++++---------------------
 1 file changed, 45 insertions(+), 34 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 1e0be84..e3e4730 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -26,6 +26,7 @@ from gitdb.util import (
     close,
 )
 
+from gitdb.exc import ParseError
 from gitdb.const import NULL_BYTE, BYTE_SPACE
 from gitdb.utils.encoding import force_bytes
 
@@ -100,8 +101,14 @@ class DecompressMemMapReader(LazyMixin):
         # should really be enough, cgit uses 8192 I believe
         # And for good reason !! This needs to be that high for the header to be read correctly in all cases
         maxb = 8192
-        self._s = maxb
-        hdr = self.read(maxb)
+        hdr = b''
+        while len(hdr) < maxb:
+            dcompdat = self._decompress_window(maxb - len(hdr))
+            if not dcompdat and self._input_exhausted():
+                break
+            # END object is smaller than the header buffer
+            hdr += dcompdat
+        # END while header buffer isn't full
         hdrend = hdr.find(NULL_BYTE)
         typ, size = hdr[:hdrend].split(BYTE_SPACE)
         size = int(size)
@@ -172,23 +179,13 @@ class DecompressMemMapReader(LazyMixin):
 
         # Only scrub the stream forward if we are officially done with the
         # bytes we were to have.
-        if self._br == self._s and not self._zip.unused_data:
-            # manipulate the bytes-read to allow our own read method to continue
-            # but keep the window at its current position
-            self._br = 0
-            if hasattr(self._zip, 'status'):
-                while self._zip.status == zlib.Z_OK:
-                    self.read(mmap.PAGESIZE)
-                # END scrub-loop custom zlib
-            else:
-                # pass in additional pages, until we have unused data
-                while not self._zip.unused_data and self._cbr != len(self._m):
-                    self.read(mmap.PAGESIZE)
-                # END scrub-loop default zlib
-            # END handle stream scrubbing
-
-            # reset bytes read, just to be sure
-            self._br = self._s
+        if self._br == self._s:
+            # pass in additional pages, until zlib has seen the end of the stream
+            while not self._zip.eof:
+                if not self._decompress_window(mmap.PAGESIZE) and self._input_exhausted():
+                    break
+                # END handle missing end of stream
+            # END scrub-loop
         # END handle stream scrubbing
 
         # unused data ends up in the unconsumed tail, which was removed
@@ -243,6 +240,35 @@ class DecompressMemMapReader(LazyMixin):
             # END handle buffer len
         # END handle buffer
 
+        # it can happen, depending on the compression, that we get less bytes
+        # than ordered ( or none at all ) as zlib needs to see more data first.
+        # Hence we continue until the request is satisfied
+        chunks = [dat]
+        while size:
+            dcompdat = self._decompress_window(size)
+            if not dcompdat and self._input_exhausted():
+                raise ParseError("Compressed stream ended %i bytes too early" % (self._s - self._br))
+            # END handle truncated or damaged streams
+            size -= len(dcompdat)
+            self._br += len(dcompdat)
+            chunks.append(dcompdat)
+        # END while we need data
+        return b''.join(chunks)
+
+    def _input_exhausted(self):
+        """:return: True if there is nothing left to decompress. Only valid if the
+            previous call to `_decompress_window` returned no data"""
+        return self._zip.eof or self._cwe == self._cws
+
+    def _decompress_window(self, size):
+        """Move the window into the memory map along, and decompress its contents
+
+        :return: at most size decompressed bytes. Can be empty even though there is more
+            data to come"""
+        if self._zip.eof:
+            return b''
+        # END handle end of compressed stream
+
         # decompress some data
         # Abstract: zlib needs to operate on chunks of our memory map ( which may
         # be large ), as it will otherwise and always fill in the 'unconsumed_tail'
@@ -301,21 +327,6 @@ class DecompressMemMapReader(LazyMixin):
         # # end handle very special case ...
 
         self._cbr += len(indata) - unused_datalen
-        self._br += len(dcompdat)
-
-        if dat:
-            dcompdat = dat + dcompdat
-        # END prepend our cached data
-
-        # it can happen, depending on the compression, that we get less bytes
-        # than ordered as it needs the final portion of the data as well.
-        # Recursively resolve that.
-        # Note: dcompdat can be empty even though we still appear to have bytes
-        # to read, if we are called by compressed_bytes_read - it manipulates
-        # us to empty the stream
-        if dcompdat and (len(dcompdat) - len(dat)) < size and self._br < self._s:
-            dcompdat += self.read(size - len(dcompdat))
-        # END handle special case
         return dcompdat
 
 
-- 
2.43.0


From e8bd073f3295a49c30ceb5a83596155c188bcd04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:58 +0000
Subject: [PATCH 02/68] fix: drop buffered bytes when rewinding a decompressing
 stream

---
 gitdb/stream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index e3e4730..f45f16b 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -202,6 +202,8 @@ class DecompressMemMapReader(LazyMixin):
         # END handle offset
 
         self._zip = zlib.decompressobj()
+        self._buf = None
+        self._buflen = 0
         self._br = self._cws = self._cwe = self._cbr = 0
         if self._phi:
             self._phi = False
-- 
2.43.0


From fb3be38697750da1b396eef33a4459a48c977a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:09:58 +0000
Subject: [PATCH 03/68] fix: reject truncated loose object headers instead of
 misreading the size

---
 gitdb/fun.py    | 6 +++++-
 gitdb/stream.py | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index a272e5c..43484aa 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -407,7 +407,11 @@ def loose_object_header_info(m):
     :param m: memory map from which to read the compressed object data"""
     decompress_size = 8192      # is used in cgit as well
     hdr = decompressobj().decompress(m, decompress_size)
-    type_name, size = hdr[:hdr.find(NULL_BYTE)].split(BYTE_SPACE)
+    hdrend = hdr.find(NULL_BYTE)
+    if hdrend < 0:
+        raise ValueError("Object header is incomplete")
+    # END handle damaged header
+    type_name, size = hdr[:hdrend].split(BYTE_SPACE)
 
     return type_name, int(size)
 
diff --git a/gitdb/stream.py b/gitdb/stream.py
index f45f16b..cc14535 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -110,6 +110,9 @@ class DecompressMemMapReader(LazyMixin):
             hdr += dcompdat
         # END while header buffer isn't full
         hdrend = hdr.find(NULL_BYTE)
+        if hdrend < 0:
+            raise ParseError("Object header is incomplete")
+        # END handle damaged header
         typ, size = hdr[:hdrend].split(BYTE_SPACE)
         size = int(size)
         self._s = size
-- 
2.43.0


From 5d40f4dc9b94dd0cd0f6f3aad6c0979053688db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:14 +0000
Subject: [PATCH 04/68] fix: don't mistake short reads for the end of a stream

Objects read from sources returning less than asked for were stored truncated
under a header announcing their full size. Sources which really end too early
now cause an error.
---
 gitdb/fun.py  | 10 +++++++---
 gitdb/pack.py |  3 ++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index 43484aa..150de7e 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -505,9 +505,12 @@ def write_object(type, size, read, write, chunk_size=chunk_size):
 
     # WRITE HEADER: type SP size NULL
     tbw += write(loose_object_header(type, size))
-    tbw += stream_copy(read, write, size, chunk_size)
+    dbw = stream_copy(read, write, size, chunk_size)
+    if dbw != size:
+        raise OSError("Expected %i bytes of object data, but the stream provided only %i" % (size, dbw))
+    # END handle depleted streams
 
-    return tbw
+    return tbw + dbw
 
 
 def stream_copy(read, write, size, chunk_size):
@@ -530,7 +533,8 @@ def stream_copy(read, write, size, chunk_size):
         data_len = len(data)
         dbw += data_len
         write(data)
-        if data_len < cs or dbw == size:
+        # NOTE: a short read doesn't mean the stream is depleted
+        if not data_len or dbw == size:
             break
         # END check for stream end
     # END duplicate data
diff --git a/gitdb/pack.py b/gitdb/pack.py
index e559e11..7daa4f1 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -153,7 +153,8 @@ def write_stream_to_pack(read, write, zstream, base_crc=None):
             crc = crc32(compressed, crc)
         # END handle crc
 
-        if len(chunk) != chunk_size:
+        # NOTE: a short read doesn't mean the stream is depleted
+        if not chunk:
             break
     # END copy loop
 
-- 
2.43.0


From fb59c1f65b99bf70400a77eead6f79f84d87d37d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:14 +0000
Subject: [PATCH 05/68] fix: make the 'in' operator of databases work

---
 gitdb/db/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/db/base.py b/gitdb/db/base.py
index 7312fe0..245bce2 100644
--- a/gitdb/db/base.py
+++ b/gitdb/db/base.py
@@ -28,7 +28,7 @@ class ObjectDBR:
     Objects are identified either by their 20 byte bin sha"""
 
     def __contains__(self, sha):
-        return self.has_obj
+        return self.has_object(sha)
 
     #{ Query Interface
     def has_object(self, sha):
-- 
2.43.0


From 9045d29d0a88eafb0835c3f953ae598e9a1477a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:14 +0000
Subject: [PATCH 06/68] fix: resolve offset deltas below reference deltas
 relative to their own offset

---
 gitdb/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 7daa4f1..2c34d7b 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -890,7 +890,7 @@ class PackEntity(LazyMixin):
                     # must be another OFS DELTA - this could happen if a REF
                     # delta we resolve previously points to an OFS delta. Who
                     # would do that ;) ? We can handle it though
-                    stream = self._pack.stream(stream.delta_info)
+                    stream = self._pack.stream(stream.pack_offset - stream.delta_info)
                     streams.append(stream)
                 # END handle ref delta
             # END resolve ref streams
-- 
2.43.0


From a9b36e60e4ccc686678cfcb6bd5ae42a24f4101c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:14 +0000
Subject: [PATCH 07/68] fix: return actual offsets from version 2 indices with
 64 bit offsets

---
 gitdb/pack.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 2c34d7b..d00cb87 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -410,6 +410,10 @@ class PackIndexFile(LazyMixin):
             # networkbyteorder to something array likes more
             if sys.byteorder == 'little':
                 a.byteswap()
+            if a and max(a) & 0x80000000:
+                # some values are just indices into the table of 64 bit offsets
+                return tuple(self.offset(index) for index in range(self.size()))
+            # END handle 64 bit offsets
             return a
         else:
             return tuple(self.offset(index) for index in range(self.size()))
-- 
2.43.0


From aba8e63cd87dc5030db603e3bf6601a4984dde83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:14 +0000
Subject: [PATCH 08/68] fix: detect abbreviated ids matching several objects of
 one pack

---
 gitdb/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index d00cb87..23d8a67 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -489,7 +489,7 @@ class PackIndexFile(LazyMixin):
                 next_sha = None
                 if lo + 1 < self.size():
                     next_sha = get_sha(lo + 1)
-                if next_sha and next_sha == cur_sha:
+                if next_sha and is_equal_canonical_sha(canonical_length, partial_bin_sha, next_sha):
                     raise AmbiguousObjectName(partial_bin_sha)
                 return lo
             # END if we have a match
-- 
2.43.0


From 9f1c8d7278e35b1a02dbb75e384739fb4cc5d5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:14 +0000
Subject: [PATCH 09/68] fix: match abbreviated ids of loose objects independent
 of their case

---
 gitdb/db/loose.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index e6765cd..b0d288f 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -111,8 +111,9 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
         :raise AmbiguousObjectName:
         :raise BadObject: """
         candidate = None
+        partial_hexsha = force_bytes(partial_hexsha).lower()
         for binsha in self.sha_iter():
-            if bin_to_hex(binsha).startswith(force_bytes(partial_hexsha)):
+            if bin_to_hex(binsha).startswith(partial_hexsha):
                 # it can't ever find the same object twice
                 if candidate is not None:
                     raise AmbiguousObjectName(partial_hexsha)
-- 
2.43.0


From bb3b66c3cfe48e5048d9aa8c93408fa04b37e8db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:37 +0000
Subject: [PATCH 10/68] fix: write everything and allow reading everything in
 FDStream

---
 gitdb/stream.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index cc14535..8214e0b 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -705,12 +705,18 @@ class FDStream:
         self._pos = 0
 
     def write(self, data):
-        self._pos += len(data)
-        os.write(self._fd, data)
+        # a single call may write less than asked for
+        view = memoryview(data)
+        while len(view):
+            bytes_written = os.write(self._fd, view)
+            self._pos += bytes_written
+            view = view[bytes_written:]
+        # END while there is data to write
+        return len(data)
 
     def read(self, count=0):
         if count == 0:
-            count = os.path.getsize(self._filepath)
+            count = os.fstat(self._fd).st_size
         # END handle read everything
 
         bytes = os.read(self._fd, count)
-- 
2.43.0


From de214ce574eddff31474af8da0119c5022bce5db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:37 +0000
Subject: [PATCH 11/68] fix: release temporary file and descriptor if storing a
 loose object fails late

---
 gitdb/db/loose.py | 22 ++++++++++++++--------
 gitdb/stream.py   | 11 +++++++----
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index b0d288f..95754f0 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -221,14 +221,20 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
         if tmp_path:
             obj_path = self.db_path(self.object_path(hexsha))
             obj_dir = dirname(obj_path)
-            os.makedirs(obj_dir, exist_ok=True)
-            # END handle destination directory
-            # rename onto existing doesn't work on NTFS
-            if isfile(obj_path):
-                remove(tmp_path)
-            else:
-                rename(tmp_path, obj_path)
-            # end rename only if needed
+            try:
+                os.makedirs(obj_dir, exist_ok=True)
+                # END handle destination directory
+                # rename onto existing doesn't work on NTFS
+                if isfile(obj_path):
+                    remove(tmp_path)
+                else:
+                    rename(tmp_path, obj_path)
+                # end rename only if needed
+            except:
+                with suppress(FileNotFoundError):
+                    remove(tmp_path)
+                raise
+            # END assure tmpfile removal on error
 
             # Ensure rename is actually done and file is stable
             # Retry up to 14 times - quadratic wait & retry in ms.
diff --git a/gitdb/stream.py b/gitdb/stream.py
index 8214e0b..8569517 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -685,10 +685,13 @@ class FDCompressedSha1Writer(Sha1Writer):
         return len(data)
 
     def close(self):
-        remainder = self.zip.flush()
-        if write(self.fd, remainder) != len(remainder):
-            raise self.exc
-        return close(self.fd)
+        try:
+            remainder = self.zip.flush()
+            if write(self.fd, remainder) != len(remainder):
+                raise self.exc
+        finally:
+            close(self.fd)
+        # END assure descriptor is closed
 
     #} END stream interface
 
-- 
2.43.0


From 2c925ace34e9202b70d82b2098bc45fac4e842a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:37 +0000
Subject: [PATCH 12/68] fix: return the written length from FlexibleSha1Writer
 as all other writers do

Without it, it could not be used as output stream of a database.
---
 gitdb/stream.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 8569517..d327079 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -614,9 +614,11 @@ class FlexibleSha1Writer(Sha1Writer):
         self.writer = writer
 
     def write(self, data):
-        Sha1Writer.write(self, data)
+        alen = Sha1Writer.write(self, data)
         self.writer(data)
 
+        return alen
+
 
 class ZippedStoreShaWriter(Sha1Writer):
 
-- 
2.43.0


From 2856ecc8f76903a873b03477f70355195cc9871e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:56 +0000
Subject: [PATCH 13/68] fix: hand out independent streams from MemoryDB

---
 gitdb/db/mem.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/gitdb/db/mem.py b/gitdb/db/mem.py
index d4772fd..3e484c9 100644
--- a/gitdb/db/mem.py
+++ b/gitdb/db/mem.py
@@ -71,13 +71,14 @@ class MemoryDB(ObjectDBR, ObjectDBW):
     def stream(self, sha):
         try:
             ostream = self._cache[sha]
-            # rewind stream for the next one to read
-            ostream.stream.seek(0)
-            return ostream
         except KeyError as e:
             raise BadObject(sha) from e
         # END exception handling
 
+        # hand out an own stream, as others might still be reading theirs
+        stream = DecompressMemMapReader(ostream.stream.data(), close_on_deletion=False)
+        return OStream(ostream.binsha, ostream.type, ostream.size, stream)
+
     def size(self):
         return len(self._cache)
 
-- 
2.43.0


From b6b0caa178fd398a2e67a3ffbb2ac058bf62dff8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:11:56 +0000
Subject: [PATCH 14/68] fix: keep compressed object data stored into a MemoryDB
 readable

It was compressed a second time, which is also what MemoryDB.stream_copy into
another MemoryDB did.
---
 gitdb/db/mem.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/gitdb/db/mem.py b/gitdb/db/mem.py
index 3e484c9..0261763 100644
--- a/gitdb/db/mem.py
+++ b/gitdb/db/mem.py
@@ -24,8 +24,15 @@ from gitdb.stream import (
     DecompressMemMapReader,
 )
 
+from gitdb.fun import (
+    chunk_size,
+    stream_copy,
+)
+
 from io import BytesIO
 
+import sys
+
 __all__ = ("MemoryDB", )
 
 
@@ -47,6 +54,15 @@ class MemoryDB(ObjectDBR, ObjectDBW):
         raise UnsupportedOperation("MemoryDB's always stream into memory")
 
     def store(self, istream):
+        if istream.binsha is not None:
+            # the data is in object format already, keep it as it is
+            buf = BytesIO()
+            stream_copy(istream.read, buf.write, sys.maxsize, chunk_size)
+            typ, size, decomp_stream = DecompressMemMapReader.new(buf.getvalue(), close_on_deletion=False)
+            self._cache[istream.binsha] = OStream(istream.binsha, typ, size, decomp_stream)
+            return istream
+        # END handle direct stream copies
+
         zstream = ZippedStoreShaWriter()
         self._db.set_ostream(zstream)
 
-- 
2.43.0


From 2934043237b7a16c874d3089af0b4e9415149dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:15 +0000
Subject: [PATCH 15/68] fix: forget cached paths of loose objects when updating
 caches

---
 gitdb/db/loose.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index 95754f0..718af4a 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -6,6 +6,7 @@ from contextlib import suppress
 
 from gitdb.db.base import (
     FileDBBase,
+    CachingDB,
     ObjectDBR,
     ObjectDBW
 )
@@ -60,7 +61,7 @@ import time
 __all__ = ('LooseObjectDB', )
 
 
-class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
+class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
 
     """A database which operates on loose object files"""
 
@@ -105,6 +106,12 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
         # END handle cache
         raise BadObject(hexsha)
 
+    def update_cache(self, force=False):
+        # files might have been removed
+        had_cache = bool(self._hexsha_to_file)
+        self._hexsha_to_file.clear()
+        return had_cache
+
     def partial_to_complete_sha_hex(self, partial_hexsha):
         """:return: 20 byte binary sha1 string which matches the given name uniquely
         :param name: hexadecimal partial name (bytes or ascii string)
-- 
2.43.0


From 11b6fe821fe7fcfa1503ed7724ef03c8274d7a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:15 +0000
Subject: [PATCH 16/68] fix: ignore packs without an index instead of failing
 every lookup

---
 gitdb/db/pack.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index 274ea59..3fac304 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -146,7 +146,10 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
 
         # packs are supposed to be prefixed with pack- by git-convention
         # get all pack files, figure out what changed
-        pack_files = set(glob.glob(os.path.join(self.root_path(), "pack-*.pack")))
+        # A pack which has no index ( yet ) can't be used
+        pack_files = {pack_file
+                      for pack_file in glob.glob(os.path.join(self.root_path(), "pack-*.pack"))
+                      if os.path.isfile(os.path.splitext(pack_file)[0] + ".idx")}
         our_pack_files = {item[1].pack().path() for item in self._entities}
 
         # new packs
-- 
2.43.0


From c560f030efdfc9a077c2e2df14b42aa588c4bda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:15 +0000
Subject: [PATCH 17/68] fix: return False from is_valid_stream if the sha
 doesn't match

---
 gitdb/pack.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 23d8a67..d1f73ca 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -850,7 +850,6 @@ class PackEntity(LazyMixin):
             # write a loose object, which is the basis for the sha
             write_object(stream.type, stream.size, stream.read, shawriter.write)
 
-            assert shawriter.sha(as_hex=False) == sha
             return shawriter.sha(as_hex=False) == sha
         # END handle crc/sha verification
         return True
-- 
2.43.0


From b5d37d536000d2e41379034b60b6c791e016331a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:33 +0000
Subject: [PATCH 18/68] fix: find packs below paths containing glob characters

---
 gitdb/db/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index 3fac304..db26145 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -148,7 +148,7 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
         # get all pack files, figure out what changed
         # A pack which has no index ( yet ) can't be used
         pack_files = {pack_file
-                      for pack_file in glob.glob(os.path.join(self.root_path(), "pack-*.pack"))
+                      for pack_file in glob.glob(os.path.join(glob.escape(self.root_path()), "pack-*.pack"))
                       if os.path.isfile(os.path.splitext(pack_file)[0] + ".idx")}
         our_pack_files = {item[1].pack().path() for item in self._entities}
 
-- 
2.43.0


From 34b56eee893c499de8305ed4018b1cd0fdba14d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:01 +0000
Subject: [PATCH 19/68] fix: report malformed deltas instead of returning wrong
 data

Copies from outside of the base were ignored if they came last, and neither the
size of the base nor the one of the result was compared to the delta's header.
---
 gitdb/fun.py    |  5 +++--
 gitdb/stream.py | 12 ++++++++++++
 2 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index 150de7e..a5ce2f3 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -672,7 +672,7 @@ def apply_delta_data(src_buf, src_buf_size, delta_buf, delta_buf_size, write):
             rbound = cp_off + cp_size
             if (rbound < cp_size or
                     rbound > src_buf_size):
-                break
+                raise ValueError("delta copies from outside of its base")
             write(src_buf[cp_off:cp_off + cp_size])
         elif c:
             write(db[i:i + c])
@@ -683,7 +683,8 @@ def apply_delta_data(src_buf, src_buf_size, delta_buf, delta_buf_size, write):
     # END while processing delta data
 
     # yes, lets use the exact same error message that git uses :)
-    assert i == delta_buf_size, "delta replay has gone wild"
+    if i != delta_buf_size:
+        raise ValueError("delta replay has gone wild")
 
 
 def is_equal_canonical_sha(canonical_length, match, sha1):
diff --git a/gitdb/stream.py b/gitdb/stream.py
index d327079..c4cd5df 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -454,6 +454,9 @@ class DeltaApplyReader(LazyMixin):
         # of it upon return.
         tbuf = allocate_memory(target_size)
 
+        # size of the data in bbuf
+        cur_base_size = self._bstream.size
+
         # for each delta to apply, memory map the decompressed delta and
         # work on the op-codes to reconstruct everything.
         # For the actual copying, we use a seek and write pattern of buffer
@@ -470,6 +473,10 @@ class DeltaApplyReader(LazyMixin):
             # read the rest from the stream. The size we give is larger than necessary
             stream_copy(dstream.read, ddata.write, dstream.size, 256 * mmap.PAGESIZE)
 
+            if src_size != cur_base_size:
+                raise ValueError("delta applies to a base of %i bytes, got one with %i" % (src_size, cur_base_size))
+            # END verify base size
+
             #######################################################################
             if 'c_apply_delta' in globals():
                 c_apply_delta(bbuf, ddata, tbuf)
@@ -477,6 +484,11 @@ class DeltaApplyReader(LazyMixin):
                 apply_delta_data(bbuf, src_size, ddata, len(ddata), tbuf.write)
             #######################################################################
 
+            if tbuf.tell() != target_size:
+                raise ValueError("delta announced %i bytes, but yielded %i" % (target_size, tbuf.tell()))
+            # END verify result size
+            cur_base_size = target_size
+
             # finally, swap out source and target buffers. The target is now the
             # base for the next delta to apply
             bbuf, tbuf = tbuf, bbuf
-- 
2.43.0


From 0025168154d0f62fa263ec0a76eae631228b5e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:01 +0000
Subject: [PATCH 20/68] fix: name created packs after the hex checksum, not the
 repr of its bytes

---
 gitdb/pack.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index d1f73ca..0c124ba 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -62,6 +62,7 @@ from struct import pack
 from binascii import crc32
 
 from gitdb.const import NULL_BYTE
+from gitdb.utils.encoding import force_text
 
 import tempfile
 import array
@@ -1025,8 +1026,9 @@ class PackEntity(LazyMixin):
         os.close(index_fd)
 
         fmt = "pack-%s.%s"
-        new_pack_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'pack'))
-        new_index_path = os.path.join(base_dir, fmt % (bin_to_hex(pack_binsha), 'idx'))
+        pack_hexsha = force_text(bin_to_hex(pack_binsha))
+        new_pack_path = os.path.join(base_dir, fmt % (pack_hexsha, 'pack'))
+        new_index_path = os.path.join(base_dir, fmt % (pack_hexsha, 'idx'))
         os.rename(pack_path, new_pack_path)
         os.rename(index_path, new_index_path)
 
-- 
2.43.0


From d0470a5c3025e7c6a2291a6f1819bd2cf92b1ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:28 +0000
Subject: [PATCH 21/68] fix: leave neither files nor descriptors behind if
 creating a pack fails

Data was also lost silently if a write was cut short, and existing packs of the
same contents were replaced.
---
 gitdb/pack.py | 55 +++++++++++++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 15 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 0c124ba..9db328b 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -55,6 +55,7 @@ from gitdb.stream import (
     DeltaApplyReader,
     Sha1Writer,
     NullStream,
+    FDStream,
     FlexibleSha1Writer
 )
 
@@ -64,6 +65,7 @@ from binascii import crc32
 from gitdb.const import NULL_BYTE
 from gitdb.utils.encoding import force_text
 
+from contextlib import suppress
 import tempfile
 import array
 import os
@@ -1016,21 +1018,44 @@ class PackEntity(LazyMixin):
         :return: PackEntity instance initialized with the new pack
 
         **Note:** for more information on the other parameters see the write_pack method"""
-        pack_fd, pack_path = tempfile.mkstemp('', 'pack', base_dir)
-        index_fd, index_path = tempfile.mkstemp('', 'index', base_dir)
-        pack_write = lambda d: os.write(pack_fd, d)
-        index_write = lambda d: os.write(index_fd, d)
-
-        pack_binsha, index_binsha = cls.write_pack(object_iter, pack_write, index_write, object_count, zlib_compression)
-        os.close(pack_fd)
-        os.close(index_fd)
-
-        fmt = "pack-%s.%s"
-        pack_hexsha = force_text(bin_to_hex(pack_binsha))
-        new_pack_path = os.path.join(base_dir, fmt % (pack_hexsha, 'pack'))
-        new_index_path = os.path.join(base_dir, fmt % (pack_hexsha, 'idx'))
-        os.rename(pack_path, new_pack_path)
-        os.rename(index_path, new_index_path)
+        tmp_paths = list()
+        streams = list()
+        try:
+            for prefix in ('pack', 'index'):
+                fd, path = tempfile.mkstemp('', prefix, base_dir)
+                tmp_paths.append(path)
+                streams.append(FDStream(fd))
+            # END for each temporary file
+            pack_write, index_write = (stream.write for stream in streams)
+
+            pack_binsha, index_binsha = cls.write_pack(object_iter, pack_write, index_write, object_count, zlib_compression)
+            while streams:
+                streams.pop().close()
+            # END close all files
+
+            fmt = "pack-%s.%s"
+            pack_hexsha = force_text(bin_to_hex(pack_binsha))
+            new_pack_path = os.path.join(base_dir, fmt % (pack_hexsha, 'pack'))
+            new_index_path = os.path.join(base_dir, fmt % (pack_hexsha, 'idx'))
+            for tmp_path, path in zip(tmp_paths, (new_pack_path, new_index_path)):
+                # never touch existing files, the name implies the same contents
+                if os.path.isfile(path):
+                    os.remove(tmp_path)
+                else:
+                    os.rename(tmp_path, path)
+                # END rename only if needed
+            # END for each file
+        except:
+            for stream in streams:
+                with suppress(OSError):
+                    stream.close()
+            # END for each open file
+            for path in tmp_paths:
+                with suppress(OSError):
+                    os.remove(path)
+            # END for each temporary file
+            raise
+        # END assure we leave nothing behind on error
 
         return cls(new_pack_path)
 
-- 
2.43.0


From ea213b717e429e9694fb3258d608ab188390de18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:45 +0000
Subject: [PATCH 22/68] fix: notice packs and alternates appearing or
 disappearing in GitDB.update_cache

---
 gitdb/db/git.py | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/gitdb/db/git.py b/gitdb/db/git.py
index a1ed142..479e3c3 100644
--- a/gitdb/db/git.py
+++ b/gitdb/db/git.py
@@ -71,6 +71,17 @@ class GitDB(FileDBBase, ObjectDBW, CompoundDB):
             super()._set_cache_(attr)
         # END handle attrs
 
+    def update_cache(self, force=False):
+        # packs or alternates may have appeared or disappeared, look for them again
+        # but keep the databases we have already
+        previous_dbs = {type(db): db for db in self._dbs}
+        self._set_cache_('_dbs')
+        changed = {type(db) for db in self._dbs} != set(previous_dbs)
+        self._dbs = [previous_dbs.get(type(db), db) for db in self._dbs]
+        self._loose_db = previous_dbs.get(type(self._loose_db), self._loose_db)
+
+        return super().update_cache(force) or changed
+
     #{ ObjectDBW interface
 
     def store(self, istream):
-- 
2.43.0


From 126af5f43ec1a499f333cafce42751f9fa313314 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:15:38 +0000
Subject: [PATCH 23/68] fix: read objects of packs larger than a memory window
 completely

Objects crossing the end of a window were cut off, the last object's end was
taken from the first window, and checksums were computed over that one only.
---
 gitdb/pack.py | 55 +++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 6 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 9db328b..aaa3fb5 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -76,6 +76,48 @@ __all__ = ('PackIndexFile', 'PackFile', 'PackEntity')
 
 #{ Utilities
 
+class _WindowedData:
+
+    """Random access data of a mapped file starting at an offset, which may extend
+    beyond the end of a mapped window"""
+    __slots__ = ('_cursor', '_offset')
+
+    def __init__(self, cursor, offset):
+        self._cursor = cursor
+        self._offset = offset
+
+    def __len__(self):
+        return self._cursor.file_size() - self._offset
+
+    def __getitem__(self, i):
+        if not isinstance(i, slice):
+            return self[i:i + 1][0]
+        # END handle single bytes
+        if i.stop is None:
+            # as in memory views, there is no need to copy anything
+            return _WindowedData(self._cursor, self._offset + i.start)
+        # END handle open slices
+
+        ofs = self._offset + i.start
+        end = min(self._offset + i.stop, self._cursor.file_size())
+        chunks = list()
+        while ofs < end:
+            data = self._cursor.use_region(ofs).buffer()[:end - ofs].tobytes()
+            ofs += len(data)
+            chunks.append(data)
+        # END for each window
+        return b''.join(chunks)
+
+
+def data_at(cursor, offset):
+    """:return: random access data from the given offset up to the end of the file"""
+    data = cursor.use_region(offset).buffer()
+    if offset + len(data) < cursor.file_size():
+        return _WindowedData(cursor, offset)
+    # END handle files larger than a window
+    return data
+
+
 def pack_object_at(cursor, offset, as_stream):
     """
     :return: Tuple(abs_data_offset, PackInfo|PackStream)
@@ -86,7 +128,7 @@ def pack_object_at(cursor, offset, as_stream):
     :parma offset: offset in to the data at which the object information is located
     :param as_stream: if True, a stream object will be returned that can read
         the data, otherwise you receive an info object only"""
-    data = cursor.use_region(offset).buffer()
+    data = data_at(cursor, offset)
     type_id, uncomp_size, data_rela_offset = pack_object_header_info(data)
     total_rela_offset = None                # set later, actual offset until data stream begins
     delta_info = None
@@ -593,7 +635,7 @@ class PackFile(LazyMixin):
 
     def checksum(self):
         """:return: 20 byte sha1 hash on all object sha's contained in this file"""
-        return self._cursor.use_region(self._cursor.file_size() - 20).buffer()[:]
+        return data_at(self._cursor, self._cursor.file_size() - 20)[:20]
 
     def path(self):
         """:return: path to the packfile"""
@@ -688,7 +730,7 @@ class PackEntity(LazyMixin):
         # to find the respective entry, from which we can take a +1 easily
         # This might be slower, but should also be much lighter in memory !
         offsets_sorted = sorted(self._index.offsets())
-        last_offset = len(self._pack.data()) - self._pack.footer_size
+        last_offset = self._pack._cursor.file_size() - self._pack.footer_size
         assert offsets_sorted, "Cannot handle empty indices"
 
         offset_map = None
@@ -732,7 +774,8 @@ class PackEntity(LazyMixin):
             sha = self._index.sha(index)
         # END assure sha is present ( in output )
         offset = self._index.offset(index)
-        type_id, uncomp_size, data_rela_offset = pack_object_header_info(self._pack._cursor.use_region(offset).buffer())
+        packinfo = self._pack.info(offset)
+        type_id, uncomp_size = packinfo.type_id, packinfo.size
         if as_stream:
             if type_id not in delta_types:
                 packstream = self._pack.stream(offset)
@@ -834,13 +877,13 @@ class PackEntity(LazyMixin):
             # create the current crc value, on the compressed object data
             # Read it in chunks, without copying the data
             crc_update = zlib.crc32
-            pack_data = self._pack.data()
+            pack_data = data_at(self._pack._cursor, offset)
             cur_pos = offset
             this_crc_value = 0
             while cur_pos < next_offset:
                 rbound = min(cur_pos + chunk_size, next_offset)
                 size = rbound - cur_pos
-                this_crc_value = crc_update(pack_data[cur_pos:cur_pos + size], this_crc_value)
+                this_crc_value = crc_update(pack_data[cur_pos - offset:cur_pos - offset + size], this_crc_value)
                 cur_pos += size
             # END window size loop
 
-- 
2.43.0


From a823e18b687fc27becbe74417ab8ef969596eb4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:35:21 +0000
Subject: [PATCH 24/68] fix: drop alternates whose directory disappeared when
 updating the cache

---
 gitdb/db/ref.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index bd30156..18ac739 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -3,6 +3,7 @@
 # This module is part of GitDB and is released under
 # the New BSD License: https://opensource.org/license/bsd-3-clause/
 import codecs
+import os
 from gitdb.db.base import (
     CompoundDB,
 )
@@ -48,7 +49,8 @@ class ReferenceDB(CompoundDB):
             pass
         # END handle alternates
 
-        ref_paths_set = set(ref_paths)
+        # databases which disappeared are dropped until they are back
+        ref_paths_set = {path for path in ref_paths if os.path.exists(path)}
         cur_ref_paths_set = {db.root_path() for db in self._dbs}
 
         # remove existing
-- 
2.43.0


From 5b1cbbe473e6530bb22703dd52b662b9fea2d979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:36:15 +0000
Subject: [PATCH 25/68] fix: find an object just stored where it was stored,
 not where it was seen before

---
 gitdb/db/git.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/git.py b/gitdb/db/git.py
index 479e3c3..537e94b 100644
--- a/gitdb/db/git.py
+++ b/gitdb/db/git.py
@@ -85,7 +85,12 @@ class GitDB(FileDBBase, ObjectDBW, CompoundDB):
     #{ ObjectDBW interface
 
     def store(self, istream):
-        return self._loose_db.store(istream)
+        istream = self._loose_db.store(istream)
+        if self.ostream() is None:
+            # it's here now, wherever we have seen it previously
+            self._db_cache[istream.binsha] = self._loose_db
+        # END update cache
+        return istream
 
     def ostream(self):
         return self._loose_db.ostream()
-- 
2.43.0


From 9e2bbd0421eca6b656a8ba13eabb129a6e7d2d5a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:55:01 +0000
Subject: [PATCH 26/68] fix: release lock and descriptor once if opening or
 ending a locked file fails

---
 gitdb/util.py | 37 +++++++++++++++++++++++++++----------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index bb6d879..4a1ae70 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -9,6 +9,7 @@ import sys
 import time
 import errno
 
+from contextlib import suppress
 from io import BytesIO
 
 from smmap import (
@@ -322,7 +323,13 @@ class LockedFD:
         try:
             fd = os.open(self._lockfilepath(), lockmode, int("600", 8))
             if not write:
-                os.close(fd)
+                try:
+                    os.close(fd)
+                except:
+                    # assure we release our lockfile
+                    remove(self._lockfilepath())
+                    raise
+                # END handle failure
             else:
                 self._fd = fd
             # END handle file descriptor
@@ -373,19 +380,29 @@ class LockedFD:
         if self._fd is None:
             return
 
-        os.close(self._fd)
+        # never try to close it again, it might belong to someone else by then
+        fd = self._fd
         self._fd = None
 
         lockfile = self._lockfilepath()
-        if self._write and successful:
-            # on windows, rename does not silently overwrite the existing one
-            if sys.platform == "win32":
-                if isfile(self._filepath):
-                    remove(self._filepath)
-                # END remove if exists
-            # END win32 special handling
-            os.rename(lockfile, self._filepath)
+        try:
+            os.close(fd)
+            if self._write and successful:
+                # on windows, rename does not silently overwrite the existing one
+                if sys.platform == "win32":
+                    if isfile(self._filepath):
+                        remove(self._filepath)
+                    # END remove if exists
+                # END win32 special handling
+                os.rename(lockfile, self._filepath)
+            # END install the new file
+        except:
+            with suppress(OSError):
+                remove(lockfile)
+            raise
+        # END assure the lock is released on error
 
+        if self._write and successful:
             # assure others can at least read the file - the tmpfile left it at rw--
             # We may also write that file, on windows that boils down to a remove-
             # protection as well
-- 
2.43.0


From 7d1e68d4457b11eb953912743b7d950a65c5696e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:04:02 +0000
Subject: [PATCH 27/68] fix: report deltas that are based on themselves instead
 of following them forever

---
 gitdb/pack.py | 16 ++++++++++++++--
 1 file changed, 14 insertions(+), 2 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index aaa3fb5..b9ba818 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -644,6 +644,14 @@ class PackFile(LazyMixin):
 
     #{ Pack Specific
 
+    def _delta_base_offset(self, ostream):
+        """:return: offset of the object the given OFS_DELTA is based on
+        :raise ParseError: if there can't be one, bases always precede their deltas"""
+        offset = ostream.pack_offset - ostream.delta_info
+        if not self.first_object_offset <= offset < ostream.pack_offset:
+            raise ParseError("Invalid base offset in delta at offset %i" % ostream.pack_offset)
+        return offset
+
     def collect_streams(self, offset):
         """
         :return: list of pack streams which are required to build the object
@@ -659,7 +667,7 @@ class PackFile(LazyMixin):
             ostream = pack_object_at(c, offset, True)[1]
             out.append(ostream)
             if ostream.type_id == OFS_DELTA:
-                offset = ostream.pack_offset - ostream.delta_info
+                offset = self._delta_base_offset(ostream)
             else:
                 # the only thing we can lookup are OFFSET deltas. Everything
                 # else is either an object, or a ref delta, in the latter
@@ -924,6 +932,7 @@ class PackEntity(LazyMixin):
         # a REF delta, or a base object, as OFFSET deltas are resolved by the pack
         if streams[-1].type_id == REF_DELTA:
             stream = streams[-1]
+            seen = set(s.pack_offset for s in streams)
             while stream.type_id in delta_types:
                 if stream.type_id == REF_DELTA:
                     # smmap can return memory view objects, which can't be compared as buffers/bytes can ...
@@ -939,9 +948,12 @@ class PackEntity(LazyMixin):
                     # must be another OFS DELTA - this could happen if a REF
                     # delta we resolve previously points to an OFS delta. Who
                     # would do that ;) ? We can handle it though
-                    stream = self._pack.stream(stream.pack_offset - stream.delta_info)
+                    stream = self._pack.stream(self._pack._delta_base_offset(stream))
                     streams.append(stream)
                 # END handle ref delta
+                if stream.pack_offset in seen:
+                    raise ParseError("Delta at offset %i is based on itself" % stream.pack_offset)
+                seen.add(stream.pack_offset)
             # END resolve ref streams
         # END resolve streams
 
-- 
2.43.0


From 068735f8455d30862ae599422a153111fb168849 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:13:50 +0000
Subject: [PATCH 28/68] fix: don't copy whole loose objects to memory when
 reading their header

---
 gitdb/fun.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index a5ce2f3..19fdd59 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -406,7 +406,18 @@ def loose_object_header_info(m):
         object as well as its uncompressed size in bytes.
     :param m: memory map from which to read the compressed object data"""
     decompress_size = 8192      # is used in cgit as well
-    hdr = decompressobj().decompress(m, decompress_size)
+    zobj = decompressobj()
+    hdr = b''
+    pos = 0
+    # pass in one window at a time, as all remaining input would be copied otherwise
+    while len(hdr) < decompress_size and NULL_BYTE not in hdr and not zobj.eof:
+        window = m[pos:pos + decompress_size]
+        if not window:
+            break
+        # END handle end of input
+        pos += len(window)
+        hdr += zobj.decompress(window, decompress_size - len(hdr))
+    # END while header isn't complete
     hdrend = hdr.find(NULL_BYTE)
     if hdrend < 0:
         raise ValueError("Object header is incomplete")
-- 
2.43.0


From 1404a44ef96494a680e6cd46883acfc1ca946ee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:35:34 +0000
Subject: [PATCH 29/68] fix: don't count unused bytes behind a compressed
 stream twice

---
 gitdb/stream.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index c4cd5df..2e9ab18 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -327,8 +327,11 @@ class DecompressMemMapReader(LazyMixin):
         # IT's CERTAINLY GOING TO BITE US IN THE FUTURE ... .
         if getattr(zlib, 'ZLIB_RUNTIME_VERSION', zlib.ZLIB_VERSION) in ('1.2.7', '1.2.5') and not sys.platform == 'darwin':
             unused_datalen = len(self._zip.unconsumed_tail)
+        elif self._zip.eof:
+            # the unconsumed tail may repeat what is part of the unused data already
+            unused_datalen = len(self._zip.unused_data)
         else:
-            unused_datalen = len(self._zip.unconsumed_tail) + len(self._zip.unused_data)
+            unused_datalen = len(self._zip.unconsumed_tail)
         # # end handle very special case ...
 
         self._cbr += len(indata) - unused_datalen
-- 
2.43.0


From 7d357123948487bb9eb21c9ebf288b4da29a298e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:42:32 +0000
Subject: [PATCH 30/68] fix: reject loose object headers which announce a
 negative size

---
 gitdb/fun.py    | 6 +++++-
 gitdb/stream.py | 3 +++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index 19fdd59..24d2dad 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -423,8 +423,12 @@ def loose_object_header_info(m):
         raise ValueError("Object header is incomplete")
     # END handle damaged header
     type_name, size = hdr[:hdrend].split(BYTE_SPACE)
+    size = int(size)
+    if size < 0:
+        raise ValueError("Object header announces a negative size: %i" % size)
+    # END handle damaged header
 
-    return type_name, int(size)
+    return type_name, size
 
 
 def pack_object_header_info(data):
diff --git a/gitdb/stream.py b/gitdb/stream.py
index 2e9ab18..1651a0c 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -115,6 +115,9 @@ class DecompressMemMapReader(LazyMixin):
         # END handle damaged header
         typ, size = hdr[:hdrend].split(BYTE_SPACE)
         size = int(size)
+        if size < 0:
+            raise ParseError("Object header announces a negative size: %i" % size)
+        # END handle damaged header
         self._s = size
 
         # adjust internal state to match actual header length that we ignore
-- 
2.43.0


From 93146815c1da41e88faa61e93f553962e2331033 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:44:30 +0000
Subject: [PATCH 31/68] fix: reject pack entries of the reserved types instead
 of serving them as objects without a type

---
 gitdb/pack.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index b9ba818..c3e032e 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -151,6 +151,9 @@ def pack_object_at(cursor, offset, as_stream):
     elif type_id == REF_DELTA:
         total_rela_offset = data_rela_offset + 20
         delta_info = data[data_rela_offset:total_rela_offset]
+    # RESERVED TYPES
+    elif not type_id_to_type_map[type_id]:
+        raise ParseError("Pack entry at offset %i has unsupported type id %i" % (offset, type_id))
     # BASE OBJECT
     else:
         # assume its a base object
-- 
2.43.0


From ba2c6a2ce55766bcf672dd038f8fec45cda20529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:11 +0000
Subject: [PATCH 32/68] fix: report changed alternates from
 ReferenceDB.update_cache

---
 gitdb/db/ref.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index 18ac739..20d8936 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -80,5 +80,7 @@ class ReferenceDB(CompoundDB):
 
     def update_cache(self, force=False):
         # re-read alternates and update databases
+        previous_dbs = list(self._dbs)
         self._update_dbs_from_ref_file()
-        return super().update_cache(force)
+        changed = self._dbs != previous_dbs
+        return super().update_cache(force) or changed
-- 
2.43.0


From b32cf00fa94ca4173eeea7715434d3a2274bc5b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:11 +0000
Subject: [PATCH 33/68] fix: a damaged or vanishing pack doesn't make all other
 packs unusable

---
 gitdb/db/pack.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index db26145..0cf1ddc 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -156,8 +156,19 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
         for pack_file in (pack_files - our_pack_files):
             # init the hit-counter/priority with the size, a good measure for hit-
             # probability. Its implemented so that only 12 bytes will be read
-            entity = PackEntity(pack_file)
-            self._entities.append([entity.pack().size(), entity, entity.index().sha_to_index])
+            try:
+                entity = PackEntity(pack_file)
+                size, _ = entity.pack().size(), entity.index().size()
+            except FileNotFoundError:
+                # it was removed in the meantime
+                continue
+            except (OSError, MemoryError):
+                raise
+            except Exception:
+                # It's damaged - the others are usable nonetheless
+                continue
+            # END ignore unusable packs
+            self._entities.append([size, entity, entity.index().sha_to_index])
         # END for each new packfile
 
         # removed packs
-- 
2.43.0


From bef330ebc344b640222caadba93f9c851fca0f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:11 +0000
Subject: [PATCH 34/68] fix: don't take a failed update of the packs for a
 completed one

---
 gitdb/db/pack.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index 0cf1ddc..c62d9b8 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -22,7 +22,6 @@ from gitdb.pack import PackEntity
 from functools import reduce
 
 import os
-import glob
 
 __all__ = ('PackedDB', )
 
@@ -51,7 +50,13 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
     def _set_cache_(self, attr):
         if attr == '_entities':
             self._entities = list()
-            self.update_cache(force=True)
+            try:
+                self.update_cache(force=True)
+            except BaseException:
+                # try again next time
+                del self._entities
+                raise
+            # END handle failure
         # END handle entities initialization
 
     def _sort_entities(self):
@@ -142,14 +147,14 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
         if not force and stat.st_mtime <= self._st_mtime:
             return False
         # END abort early on no change
-        self._st_mtime = stat.st_mtime
 
         # packs are supposed to be prefixed with pack- by git-convention
         # get all pack files, figure out what changed
         # A pack which has no index ( yet ) can't be used
-        pack_files = {pack_file
-                      for pack_file in glob.glob(os.path.join(glob.escape(self.root_path()), "pack-*.pack"))
-                      if os.path.isfile(os.path.splitext(pack_file)[0] + ".idx")}
+        pack_files = {self.db_path(name)
+                      for name in os.listdir(self.root_path())
+                      if name.startswith("pack-") and name.endswith(".pack")
+                      and os.path.isfile(os.path.splitext(self.db_path(name))[0] + ".idx")}
         our_pack_files = {item[1].pack().path() for item in self._entities}
 
         # new packs
@@ -186,6 +191,7 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
 
         # reinitialize prioritiess
         self._sort_entities()
+        self._st_mtime = stat.st_mtime
         return True
 
     def entities(self):
-- 
2.43.0


From b98a12c681cded0f6d02f74943f0f805d719e67f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:11 +0000
Subject: [PATCH 35/68] fix: don't report a loose object which can't be read as
 missing

---
 gitdb/db/loose.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index 718af4a..145def7 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -144,7 +144,7 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
                 # try again without noatime
                 try:
                     return file_contents_ro_filepath(db_path)
-                except OSError as new_e:
+                except FileNotFoundError as new_e:
                     raise BadObject(sha) from new_e
                 # didn't work because of our flag, don't try it again
                 self._fd_open_flags = 0
-- 
2.43.0


From 84c4003ab03af61ccb0852afd293142984e58ac5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:44:11 +0000
Subject: [PATCH 36/68] fix: don't leave out loose objects if a directory can't
 be listed

---
 gitdb/db/loose.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index 145def7..13130eb 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -265,8 +265,14 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
         return istream
 
     def sha_iter(self):
+        def on_error(error):
+            # directories may be removed in the meantime, but we can't miss the objects in others
+            if not isinstance(error, FileNotFoundError):
+                raise error
+        # END handle errors
+
         # find all files which look like an object, extract sha from there
-        for root, dirs, files in os.walk(self.root_path()):
+        for root, dirs, files in os.walk(self.root_path(), onerror=on_error):
             root_base = basename(root)
             if len(root_base) != 2:
                 continue
-- 
2.43.0


From 5e22cf27eb75d09dd262102074426ea259b600e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:40 +0000
Subject: [PATCH 37/68] fix: don't change the list of packs in place while
 other threads search it

Every 500 hits (and every update) the list of packs was sorted in place, during
which a list is empty to everybody else: other threads iterating it at that
time reported objects as missing. A list being built by the first query was
visible to others while it was incomplete as well.
---
 gitdb/db/pack.py | 29 ++++++++++++++++-------------
 1 file changed, 16 insertions(+), 13 deletions(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index c62d9b8..4824ab9 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -49,18 +49,17 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
 
     def _set_cache_(self, attr):
         if attr == '_entities':
-            self._entities = list()
-            try:
-                self.update_cache(force=True)
-            except BaseException:
-                # try again next time
-                del self._entities
-                raise
-            # END handle failure
+            # assigns our entities if successful
+            self.update_cache(force=True)
         # END handle entities initialization
 
     def _sort_entities(self):
-        self._entities.sort(key=lambda l: l[0], reverse=True)
+        # Don't change the list itself, other threads might be iterating it
+        entities = self._entities
+        by_hits = sorted(entities, key=lambda l: l[0], reverse=True)
+        if self._entities is entities:
+            self._entities = by_hits
+        # END don't undo updates
 
     def _pack_info(self, sha):
         """:return: tuple(entity, index) for an item at the given sha
@@ -155,7 +154,9 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
                       for name in os.listdir(self.root_path())
                       if name.startswith("pack-") and name.endswith(".pack")
                       and os.path.isfile(os.path.splitext(self.db_path(name))[0] + ".idx")}
-        our_pack_files = {item[1].pack().path() for item in self._entities}
+        # assigned once it's complete, as others might be using it in the meantime
+        entities = list(self.__dict__.get('_entities', ()))
+        our_pack_files = {item[1].pack().path() for item in entities}
 
         # new packs
         for pack_file in (pack_files - our_pack_files):
@@ -173,22 +174,24 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
                 # It's damaged - the others are usable nonetheless
                 continue
             # END ignore unusable packs
-            self._entities.append([size, entity, entity.index().sha_to_index])
+            entities.append([size, entity, entity.index().sha_to_index])
         # END for each new packfile
 
         # removed packs
         for pack_file in (our_pack_files - pack_files):
             del_index = -1
-            for i, item in enumerate(self._entities):
+            for i, item in enumerate(entities):
                 if item[1].pack().path() == pack_file:
                     del_index = i
                     break
                 # END found index
             # END for each entity
             assert del_index != -1
-            del(self._entities[del_index])
+            del(entities[del_index])
         # END for each removed pack
 
+        self._entities = entities
+
         # reinitialize prioritiess
         self._sort_entities()
         self._st_mtime = stat.st_mtime
-- 
2.43.0


From 5286d28f81843ce0fab6d79b694b7ac3063b832e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:40 +0000
Subject: [PATCH 38/68] fix: don't show half-loaded lists of databases to other
 threads

The first query of a GitDB or ReferenceDB fills its list of databases. A query
of another thread saw the incomplete list and reported objects as missing.
---
 gitdb/db/git.py | 10 ++++++----
 gitdb/db/ref.py | 12 +++++++-----
 2 files changed, 13 insertions(+), 9 deletions(-)

diff --git a/gitdb/db/git.py b/gitdb/db/git.py
index 537e94b..e302a00 100644
--- a/gitdb/db/git.py
+++ b/gitdb/db/git.py
@@ -43,22 +43,23 @@ class GitDB(FileDBBase, ObjectDBW, CompoundDB):
 
     def _set_cache_(self, attr):
         if attr == '_dbs' or attr == '_loose_db':
-            self._dbs = list()
+            # assigned once it's complete, as others might be using it in the meantime
+            dbs = list()
             loose_db = None
             for subpath, dbcls in ((self.packs_dir, self.PackDBCls),
                                    (self.loose_dir, self.LooseDBCls),
                                    (self.alternates_dir, self.ReferenceDBCls)):
                 path = self.db_path(subpath)
                 if os.path.exists(path):
-                    self._dbs.append(dbcls(path))
+                    dbs.append(dbcls(path))
                     if dbcls is self.LooseDBCls:
-                        loose_db = self._dbs[-1]
+                        loose_db = dbs[-1]
                     # END remember loose db
                 # END check path exists
             # END for each db type
 
             # should have at least one subdb
-            if not self._dbs:
+            if not dbs:
                 raise InvalidDBRoot(self.root_path())
             # END handle error
 
@@ -66,6 +67,7 @@ class GitDB(FileDBBase, ObjectDBW, CompoundDB):
             assert loose_db is not None and hasattr(loose_db, 'store'), "First database needs store functionality"
 
             # finally set the value
+            self._dbs = dbs
             self._loose_db = loose_db
         else:
             super()._set_cache_(attr)
diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index 20d8936..81d8941 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -26,7 +26,6 @@ class ReferenceDB(CompoundDB):
 
     def _set_cache_(self, attr):
         if attr == '_dbs':
-            self._dbs = list()
             self._update_dbs_from_ref_file()
         else:
             super()._set_cache_(attr)
@@ -51,13 +50,15 @@ class ReferenceDB(CompoundDB):
 
         # databases which disappeared are dropped until they are back
         ref_paths_set = {path for path in ref_paths if os.path.exists(path)}
-        cur_ref_paths_set = {db.root_path() for db in self._dbs}
+        # assigned once it's complete, as others might be using it in the meantime
+        dbs = list(self.__dict__.get('_dbs', ()))
+        cur_ref_paths_set = {db.root_path() for db in dbs}
 
         # remove existing
         for path in (cur_ref_paths_set - ref_paths_set):
-            for i, db in enumerate(self._dbs[:]):
+            for i, db in enumerate(dbs[:]):
                 if db.root_path() == path:
-                    del(self._dbs[i])
+                    del(dbs[i])
                     continue
                 # END del matching db
         # END for each path to remove
@@ -72,11 +73,12 @@ class ReferenceDB(CompoundDB):
                 if isinstance(db, CompoundDB):
                     db.databases()
                 # END verification
-                self._dbs.append(db)
+                dbs.append(db)
             except Exception:
                 # ignore invalid paths or issues
                 pass
         # END for each path to add
+        self._dbs = dbs
 
     def update_cache(self, force=False):
         # re-read alternates and update databases
-- 
2.43.0


From 9959821ea622f938d49e1a81dbc9c8d6acef8c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:12:31 +0000
Subject: [PATCH 39/68] fix: the trailing checksum of a pack may extend beyond
 a window

PackFile.checksum() failed if the last 20 bytes of a pack were not all within the
same mapped window.
---
 gitdb/pack.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index c3e032e..6e1885d 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -95,10 +95,10 @@ class _WindowedData:
         # END handle single bytes
         if i.stop is None:
             # as in memory views, there is no need to copy anything
-            return _WindowedData(self._cursor, self._offset + i.start)
+            return _WindowedData(self._cursor, self._offset + (i.start or 0))
         # END handle open slices
 
-        ofs = self._offset + i.start
+        ofs = self._offset + (i.start or 0)
         end = min(self._offset + i.stop, self._cursor.file_size())
         chunks = list()
         while ofs < end:
-- 
2.43.0


From 136d54540fb92ad53938ad272e81ba73712d403e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:35:51 +0000
Subject: [PATCH 40/68] fix: use the memory manager from one thread at a time

Neither the shared memory manager nor the cursor of a pack are made for multiple
threads. If the cursor was moved by another thread in between, the data of another
object was read, and packs were considered damaged.
---
 gitdb/pack.py | 21 +++++++++++++++------
 gitdb/util.py |  8 ++++++++
 2 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 6e1885d..19f755c 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -14,6 +14,7 @@ from gitdb.exc import (
 
 from gitdb.util import (
     mman,
+    mman_lock,
     LazyMixin,
     unpack_from,
     bin_to_hex,
@@ -102,7 +103,9 @@ class _WindowedData:
         end = min(self._offset + i.stop, self._cursor.file_size())
         chunks = list()
         while ofs < end:
-            data = self._cursor.use_region(ofs).buffer()[:end - ofs].tobytes()
+            with mman_lock:
+                data = self._cursor.use_region(ofs).buffer()
+            data = data[:end - ofs].tobytes()
             ofs += len(data)
             chunks.append(data)
         # END for each window
@@ -111,7 +114,8 @@ class _WindowedData:
 
 def data_at(cursor, offset):
     """:return: random access data from the given offset up to the end of the file"""
-    data = cursor.use_region(offset).buffer()
+    with mman_lock:
+        data = cursor.use_region(offset).buffer()
     if offset + len(data) < cursor.file_size():
         return _WindowedData(cursor, offset)
     # END handle files larger than a window
@@ -322,7 +326,8 @@ class PackIndexFile(LazyMixin):
             # Note: We don't lock the file when reading as we cannot be sure
             # that we can actually write to the location - it could be a read-only
             # alternate for instance
-            self._cursor = mman.make_cursor(self._indexpath).use_region()
+            with mman_lock:
+                self._cursor = mman.make_cursor(self._indexpath).use_region()
             # We will assume that the index will always fully fit into memory !
             if mman.window_size() > 0 and self._cursor.file_size() > mman.window_size():
                 raise AssertionError("The index file at %s is too large to fit into a mapped window (%i > %i). This is a limitation of the implementation" % (
@@ -584,10 +589,13 @@ class PackFile(LazyMixin):
 
     def _set_cache_(self, attr):
         # we fill the whole cache, whichever attribute gets queried first
-        self._cursor = mman.make_cursor(self._packpath).use_region()
+        with mman_lock:
+            cursor = mman.make_cursor(self._packpath).use_region()
+            header = cursor.map()
+        self._cursor = cursor
 
         # read the header information
-        type_id, self._version, self._size = unpack_from(">LLL", self._cursor.map(), 0)
+        type_id, self._version, self._size = unpack_from(">LLL", header, 0)
 
         # TODO: figure out whether we should better keep the lock, or maybe
         # add a .keep file instead ?
@@ -634,7 +642,8 @@ class PackFile(LazyMixin):
             is a memory map.
         :note: This method is unsafe as it returns a window into a file which might be larger than than the actual window size"""
         # can use map as we are starting at offset 0. Otherwise we would have to use buffer()
-        return self._cursor.use_region().map()
+        with mman_lock:
+            return self._cursor.use_region().map()
 
     def checksum(self):
         """:return: 20 byte sha1 hash on all object sha's contained in this file"""
diff --git a/gitdb/util.py b/gitdb/util.py
index 4a1ae70..3c5abd1 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -8,6 +8,7 @@ import mmap
 import sys
 import time
 import errno
+import threading
 
 from contextlib import suppress
 from io import BytesIO
@@ -21,6 +22,13 @@ from smmap import (
 # initialize our global memory manager instance
 # Use it to free cached (and unused) resources.
 mman = SlidingWindowMapManager()
+
+# Neither the manager nor a cursor may be used by multiple threads at the same time
+mman_lock = threading.RLock()
+if hasattr(os, 'register_at_fork'):
+    # don't leave it locked in a child process
+    os.register_at_fork(before=mman_lock.acquire, after_in_parent=mman_lock.release,
+                        after_in_child=mman_lock.release)
 # END handle mman
 
 import hashlib
-- 
2.43.0


From cba9b07afba98df54eb55ce10d73f31b1dff8704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:10:25 +0000
Subject: [PATCH 41/68] fix: only objects are enumerated

Files in other places which are named like an object were enumerated as such, and
names which aren't hexadecimal made the enumeration fail.
---
 gitdb/db/loose.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index 13130eb..d19b334 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -54,6 +54,7 @@ from gitdb.utils.encoding import force_bytes
 
 import tempfile
 import os
+import re
 import sys
 import time
 
@@ -272,13 +273,17 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
         # END handle errors
 
         # find all files which look like an object, extract sha from there
+        is_hex = re.compile('[0-9a-f]+').fullmatch
         for root, dirs, files in os.walk(self.root_path(), onerror=on_error):
-            root_base = basename(root)
-            if len(root_base) != 2:
+            if root == self.root_path():
+                # there are no objects in here or further below
+                dirs[:] = [d for d in dirs if len(d) == 2 and is_hex(d)]
                 continue
+            dirs.clear()
+            root_base = basename(root)
 
             for f in files:
-                if len(f) != 38:
+                if len(f) != 38 or not is_hex(f):
                     continue
                 yield hex_to_bin(root_base + f)
             # END for each file
-- 
2.43.0


From 2b3bc01edb9c6c02c9531fc045cc7f88c612e1db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:27 +0000
Subject: [PATCH 42/68] fix: storing objects works while git prunes

git removes object directories which became empty, and loose objects which are
packed as well. If that happened between the creation of the directory and the
renaming, or before the mode was set, storing the object failed.
---
 gitdb/db/loose.py | 29 ++++++++++++++++++++---------
 1 file changed, 20 insertions(+), 9 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index d19b334..47ed167 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -230,14 +230,23 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
             obj_path = self.db_path(self.object_path(hexsha))
             obj_dir = dirname(obj_path)
             try:
-                os.makedirs(obj_dir, exist_ok=True)
-                # END handle destination directory
-                # rename onto existing doesn't work on NTFS
-                if isfile(obj_path):
-                    remove(tmp_path)
-                else:
-                    rename(tmp_path, obj_path)
-                # end rename only if needed
+                # git removes directories which became empty, possibly right before we use them
+                for retries_left in range(9, -1, -1):
+                    try:
+                        os.makedirs(obj_dir, exist_ok=True)
+                        # END handle destination directory
+                        # rename onto existing doesn't work on NTFS
+                        if isfile(obj_path):
+                            remove(tmp_path)
+                        else:
+                            rename(tmp_path, obj_path)
+                        # end rename only if needed
+                        break
+                    except (FileNotFoundError, FileExistsError):
+                        if not retries_left:
+                            raise
+                    # END handle removed directory
+                # END for each attempt
             except:
                 with suppress(FileNotFoundError):
                     remove(tmp_path)
@@ -252,7 +261,9 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
                 with suppress(PermissionError):
                     # make sure its readable for all ! It started out as rw-- tmp file
                     # but needs to be rwrr
-                    chmod(obj_path, self.new_objects_mode)
+                    with suppress(FileNotFoundError):
+                        # git removes it if it is contained in a pack as well
+                        chmod(obj_path, self.new_objects_mode)
                     break
                 time.sleep(backoff_ms / 1000.0)
             else:
-- 
2.43.0


From cd76ff8c3482f4a5711ef11a1862d01f238d9d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:37 +0000
Subject: [PATCH 43/68] fix: alternates with arbitrary characters in their path

A path which isn't valid UTF-8 made every query of the database fail, and one with
surrounding white space or an unusual line separator in it was not found.
---
 gitdb/db/ref.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index 81d8941..fa34263 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -2,7 +2,6 @@
 #
 # This module is part of GitDB and is released under
 # the New BSD License: https://opensource.org/license/bsd-3-clause/
-import codecs
 import os
 from gitdb.db.base import (
     CompoundDB,
@@ -42,8 +41,9 @@ class ReferenceDB(CompoundDB):
         # try to get as many as possible, don't fail if some are unavailable
         ref_paths = list()
         try:
-            with codecs.open(self._ref_file, 'r', encoding="utf-8") as f:
-                ref_paths = [l.strip() for l in f]
+            # paths may contain any character and don't have to be valid in any encoding
+            with open(self._ref_file, encoding="utf-8", errors="surrogateescape", newline="\n") as f:
+                ref_paths = [l.strip("\r\n") for l in f]
         except OSError:
             pass
         # END handle alternates
-- 
2.43.0


From d9d86b3b52cdc677ec0a5dcf3c23d2436e388297 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:32:37 +0000
Subject: [PATCH 44/68] fix: relative alternates are relative to the objects
 directory

They were looked up relative to the current working directory.
---
 gitdb/db/ref.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index fa34263..61e457f 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -48,6 +48,10 @@ class ReferenceDB(CompoundDB):
             pass
         # END handle alternates
 
+        # relative paths are relative to the directory the info directory is in
+        base_path = os.path.dirname(os.path.dirname(self._ref_file))
+        ref_paths = [os.path.join(base_path, path) for path in ref_paths if path]
+
         # databases which disappeared are dropped until they are back
         ref_paths_set = {path for path in ref_paths if os.path.exists(path)}
         # assigned once it's complete, as others might be using it in the meantime
-- 
2.43.0


From 8a467ba785cb93e0f52e4dbeccc0ab6ff6c5bc6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:35 +0000
Subject: [PATCH 45/68] fix: alternates may refer to each other in cycles

Queries for missing objects, enumerations and updates ended in a
RecursionError if an alternate referred back to the database using it.
---
 gitdb/db/git.py | 6 ++++++
 gitdb/db/ref.py | 9 ++++++++-
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/git.py b/gitdb/db/git.py
index e302a00..acee006 100644
--- a/gitdb/db/git.py
+++ b/gitdb/db/git.py
@@ -37,6 +37,9 @@ class GitDB(FileDBBase, ObjectDBW, CompoundDB):
     loose_dir = ''
     alternates_dir = os.path.join('info', 'alternates')
 
+    # alternates files through which we are referred to, directly or not
+    _referrers = frozenset()
+
     def __init__(self, root_path):
         """Initialize ourselves on a git objects directory"""
         super().__init__(root_path)
@@ -55,6 +58,9 @@ class GitDB(FileDBBase, ObjectDBW, CompoundDB):
                     if dbcls is self.LooseDBCls:
                         loose_db = dbs[-1]
                     # END remember loose db
+                    if isinstance(dbs[-1], ReferenceDB):
+                        dbs[-1]._referrers |= self._referrers
+                    # END pass on who refers to us
                 # END check path exists
             # END for each db type
 
diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index 61e457f..4d3fa2a 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -22,6 +22,8 @@ class ReferenceDB(CompoundDB):
     def __init__(self, ref_file):
         super().__init__()
         self._ref_file = ref_file
+        # alternates files through which we are referred to, including our own one
+        self._referrers = {os.path.realpath(ref_file)}
 
     def _set_cache_(self, attr):
         if attr == '_dbs':
@@ -75,7 +77,12 @@ class ReferenceDB(CompoundDB):
                 db = dbcls(path)
                 # force an update to verify path
                 if isinstance(db, CompoundDB):
-                    db.databases()
+                    # whatever it refers to must not lead back to us
+                    db._referrers = self._referrers
+                    if any(os.path.realpath(sub_db._ref_file) in self._referrers
+                           for sub_db in db.databases() if isinstance(sub_db, ReferenceDB)):
+                        continue
+                    # END skip those we are referred by
                 # END verification
                 dbs.append(db)
             except Exception:
-- 
2.43.0


From 16824d00dece13a85bbcf156d442a442774e8652 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:43 +0000
Subject: [PATCH 46/68] fix: files which can't be mapped are read completely

A single read returns at most 2 GB, or less where the file system wants to.
---
 gitdb/util.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index 3c5abd1..9c19a3b 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -191,8 +191,12 @@ def file_contents_ro(fd, stream=False, allow_mmap=True):
         pass
     # END exception handling
 
-    # read manually
-    contents = os.read(fd, os.fstat(fd).st_size)
+    # read manually, a single call may return less than asked for
+    chunks = [os.read(fd, os.fstat(fd).st_size)]
+    while chunks[-1]:
+        chunks.append(os.read(fd, 1000 * mmap.PAGESIZE))
+    # END while there is more to read
+    contents = b''.join(chunks)
     if stream:
         return _RandomAccessBytesIO(contents)
     return contents
-- 
2.43.0


From 90a49c30687ac8ea28fd4bdaca594bc759bd2a93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:55:25 +0000
Subject: [PATCH 47/68] fix: InvalidOInfo and InvalidOStream can be
 instantiated

---
 gitdb/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/base.py b/gitdb/base.py
index 9a23a4f..aa95e24 100644
--- a/gitdb/base.py
+++ b/gitdb/base.py
@@ -291,7 +291,7 @@ class InvalidOInfo(tuple):
         return tuple.__new__(cls, (sha, exc))
 
     def __init__(self, sha, exc):
-        tuple.__init__(self, (sha, exc))
+        tuple.__init__(self)
 
     @property
     def binsha(self):
-- 
2.43.0


From deb35bb1bb9e76d42dd915487a286a48f2676995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:34 +0000
Subject: [PATCH 48/68] fix: maps of files that were replaced aren't used for
 those in their place

---
 gitdb/util.py | 44 +++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 43 insertions(+), 1 deletion(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index 9c19a3b..f8c706d 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -18,10 +18,52 @@ from smmap import (
     SlidingWindowMapManager,
     SlidingWindowMapBuffer
 )
+from smmap.util import MapRegionList
+
+
+def _file_identity(path):
+    """:return: value which differs if another file is at the given path, or if it has
+        another size. None if there is no such file"""
+    try:
+        st = os.stat(path)
+    except OSError:
+        return None
+    return st.st_dev, st.st_ino, st.st_size
+
+
+class _MapRegionList(MapRegionList):
+
+    """Remembers which file its regions are of"""
+    __slots__ = '_identity'
+
+    def __init__(self, path_or_fd):
+        super().__init__(path_or_fd)
+        self._identity = _file_identity(path_or_fd)
+
+
+class _MapManager(SlidingWindowMapManager):
+
+    """A memory manager which doesn't hand out maps of files that have been replaced"""
+    __slots__ = tuple()
+
+    MapRegionListCls = _MapRegionList
+
+    def make_cursor(self, path_or_fd):
+        regions = self._fdict.get(path_or_fd)
+        if regions is not None and regions._identity != _file_identity(path_or_fd):
+            # they are released once those who still use them are gone
+            del self._fdict[path_or_fd]
+            for region in regions:
+                self._memory_size -= region.size()
+                self._handle_count -= 1
+            # END for each region
+        # END handle replaced files
+        return super().make_cursor(path_or_fd)
+
 
 # initialize our global memory manager instance
 # Use it to free cached (and unused) resources.
-mman = SlidingWindowMapManager()
+mman = _MapManager()
 
 # Neither the manager nor a cursor may be used by multiple threads at the same time
 mman_lock = threading.RLock()
-- 
2.43.0


From 04896fe903961c705c1d3fa8f51526c78584fc27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:29:34 +0000
Subject: [PATCH 49/68] fix: packs replaced under their name are read again
 after an update

---
 gitdb/db/pack.py | 22 ++++++++++++++++++++--
 1 file changed, 20 insertions(+), 2 deletions(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index 4824ab9..6b82db4 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -19,6 +19,7 @@ from gitdb.exc import (
 
 from gitdb.pack import PackEntity
 
+from contextlib import suppress
 from functools import reduce
 
 import os
@@ -39,10 +40,11 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
 
     def __init__(self, root_path):
         super().__init__(root_path)
-        # list of lists with three items:
+        # list of lists with four items:
         # * hits - number of times the pack was hit with a request
         # * entity - Pack entity instance
         # * sha_to_index - PackIndexFile.sha_to_index method for direct cache query
+        # * file_ids - identifies the pack and index file we have loaded
         # self._entities = list()       # lazy loaded list
         self._hit_count = 0             # amount of hits
         self._st_mtime = 0              # last modification data of our root path
@@ -53,6 +55,17 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
             self.update_cache(force=True)
         # END handle entities initialization
 
+    def _file_ids(self, pack_file):
+        """:return: list of values identifying the contents of the given pack and its index"""
+        ids = list()
+        for path in (pack_file, os.path.splitext(pack_file)[0] + ".idx"):
+            st = None
+            with suppress(FileNotFoundError):
+                st = os.stat(path)
+            ids.append(st and (st.st_dev, st.st_ino, st.st_size, st.st_mtime_ns))
+        # END for each file
+        return ids
+
     def _sort_entities(self):
         # Don't change the list itself, other threads might be iterating it
         entities = self._entities
@@ -156,6 +169,10 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
                       and os.path.isfile(os.path.splitext(self.db_path(name))[0] + ".idx")}
         # assigned once it's complete, as others might be using it in the meantime
         entities = list(self.__dict__.get('_entities', ()))
+        # packs whose files have been replaced are new ones
+        entities = [item for item in entities
+                    if item[1].pack().path() not in pack_files
+                    or item[3] == self._file_ids(item[1].pack().path())]
         our_pack_files = {item[1].pack().path() for item in entities}
 
         # new packs
@@ -163,6 +180,7 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
             # init the hit-counter/priority with the size, a good measure for hit-
             # probability. Its implemented so that only 12 bytes will be read
             try:
+                file_ids = self._file_ids(pack_file)
                 entity = PackEntity(pack_file)
                 size, _ = entity.pack().size(), entity.index().size()
             except FileNotFoundError:
@@ -174,7 +192,7 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
                 # It's damaged - the others are usable nonetheless
                 continue
             # END ignore unusable packs
-            entities.append([size, entity, entity.index().sha_to_index])
+            entities.append([size, entity, entity.index().sha_to_index, file_ids])
         # END for each new packfile
 
         # removed packs
-- 
2.43.0


From 1603130a0b48adbfc585a4ec413f43e2d3f39812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:40 +0000
Subject: [PATCH 50/68] fix: an update doesn't exchange the loose database
 others might be storing into

---
 gitdb/db/git.py | 70 +++++++++++++++++++++++++------------------------
 1 file changed, 36 insertions(+), 34 deletions(-)

diff --git a/gitdb/db/git.py b/gitdb/db/git.py
index acee006..eb7bd53 100644
--- a/gitdb/db/git.py
+++ b/gitdb/db/git.py
@@ -46,47 +46,49 @@ class GitDB(FileDBBase, ObjectDBW, CompoundDB):
 
     def _set_cache_(self, attr):
         if attr == '_dbs' or attr == '_loose_db':
-            # assigned once it's complete, as others might be using it in the meantime
-            dbs = list()
-            loose_db = None
-            for subpath, dbcls in ((self.packs_dir, self.PackDBCls),
-                                   (self.loose_dir, self.LooseDBCls),
-                                   (self.alternates_dir, self.ReferenceDBCls)):
-                path = self.db_path(subpath)
-                if os.path.exists(path):
-                    dbs.append(dbcls(path))
-                    if dbcls is self.LooseDBCls:
-                        loose_db = dbs[-1]
-                    # END remember loose db
-                    if isinstance(dbs[-1], ReferenceDB):
-                        dbs[-1]._referrers |= self._referrers
-                    # END pass on who refers to us
-                # END check path exists
-            # END for each db type
-
-            # should have at least one subdb
-            if not dbs:
-                raise InvalidDBRoot(self.root_path())
-            # END handle error
-
-            # we the first one should have the store method
-            assert loose_db is not None and hasattr(loose_db, 'store'), "First database needs store functionality"
-
-            # finally set the value
-            self._dbs = dbs
-            self._loose_db = loose_db
+            self._dbs, self._loose_db = self._find_dbs()
         else:
             super()._set_cache_(attr)
         # END handle attrs
 
+    def _find_dbs(self):
+        """:return: tuple(list of databases existing at our root, loose object database)
+        :raise InvalidDBRoot: if there is none"""
+        dbs = list()
+        loose_db = None
+        for subpath, dbcls in ((self.packs_dir, self.PackDBCls),
+                               (self.loose_dir, self.LooseDBCls),
+                               (self.alternates_dir, self.ReferenceDBCls)):
+            path = self.db_path(subpath)
+            if os.path.exists(path):
+                dbs.append(dbcls(path))
+                if dbcls is self.LooseDBCls:
+                    loose_db = dbs[-1]
+                # END remember loose db
+                if isinstance(dbs[-1], ReferenceDB):
+                    dbs[-1]._referrers |= self._referrers
+                # END pass on who refers to us
+            # END check path exists
+        # END for each db type
+
+        # should have at least one subdb
+        if not dbs:
+            raise InvalidDBRoot(self.root_path())
+        # END handle error
+
+        # we the first one should have the store method
+        assert loose_db is not None and hasattr(loose_db, 'store'), "First database needs store functionality"
+
+        return dbs, loose_db
+
     def update_cache(self, force=False):
         # packs or alternates may have appeared or disappeared, look for them again
-        # but keep the databases we have already
+        # but keep the databases we have already. Others might be using them in the meantime
         previous_dbs = {type(db): db for db in self._dbs}
-        self._set_cache_('_dbs')
-        changed = {type(db) for db in self._dbs} != set(previous_dbs)
-        self._dbs = [previous_dbs.get(type(db), db) for db in self._dbs]
-        self._loose_db = previous_dbs.get(type(self._loose_db), self._loose_db)
+        dbs, loose_db = self._find_dbs()
+        changed = {type(db) for db in dbs} != set(previous_dbs)
+        self._dbs = [previous_dbs.get(type(db), db) for db in dbs]
+        self._loose_db = previous_dbs.get(type(loose_db), loose_db)
 
         return super().update_cache(force) or changed
 
-- 
2.43.0


From d01d09c1cb825dac5165e58a6a03a84fb462497f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:43:15 +0000
Subject: [PATCH 51/68] fix: what queries found out before an update doesn't
 outlive it

---
 gitdb/db/base.py  | 8 +++++++-
 gitdb/db/loose.py | 6 ++++--
 2 files changed, 11 insertions(+), 3 deletions(-)

diff --git a/gitdb/db/base.py b/gitdb/db/base.py
index 245bce2..4ab526c 100644
--- a/gitdb/db/base.py
+++ b/gitdb/db/base.py
@@ -181,6 +181,9 @@ class CompoundDB(ObjectDBR, LazyMixin, CachingDB):
     def _db_query(self, sha):
         """:return: database containing the given 20 byte sha
         :raise BadObject:"""
+        # what we find out must not end up in the cache of an update which ends in the meantime
+        cache = self._db_cache
+
         # most databases use binary representations, prevent converting
         # it every time a database is being queried
         try:
@@ -191,7 +194,7 @@ class CompoundDB(ObjectDBR, LazyMixin, CachingDB):
 
         for db in self._dbs:
             if db.has_object(sha):
-                self._db_cache[sha] = db
+                cache[sha] = db
                 return db
         # END for each database
         raise BadObject(sha)
@@ -236,6 +239,9 @@ class CompoundDB(ObjectDBR, LazyMixin, CachingDB):
                 stat |= db.update_cache(force)
             # END if is caching db
         # END for each database to update
+
+        # queries might have added what they saw previously
+        self._db_cache = dict()
         return stat
 
     def partial_to_complete_sha_hex(self, partial_hexsha):
diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index 47ed167..79c5d04 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -95,6 +95,8 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
         """
         :return: readable object path to the object identified by hexsha
         :raise BadObject: If the object file does not exist"""
+        # what we find out must not end up in the cache of an update which ends in the meantime
+        cache = self._hexsha_to_file
         with suppress(KeyError):
             return self._hexsha_to_file[hexsha]
         # END ignore cache misses
@@ -102,7 +104,7 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
         # try filesystem
         path = self.db_path(self.object_path(hexsha))
         if exists(path):
-            self._hexsha_to_file[hexsha] = path
+            cache[hexsha] = path
             return path
         # END handle cache
         raise BadObject(hexsha)
@@ -110,7 +112,7 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
     def update_cache(self, force=False):
         # files might have been removed
         had_cache = bool(self._hexsha_to_file)
-        self._hexsha_to_file.clear()
+        self._hexsha_to_file = dict()
         return had_cache
 
     def partial_to_complete_sha_hex(self, partial_hexsha):
-- 
2.43.0


From 071746cb8e086d91c4f5bb78c3e9ed15c2f33167 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:24 +0000
Subject: [PATCH 52/68] fix: what an update found isn't lost through loading or
 updating in another thread

---
 gitdb/db/base.py | 24 +++++++++++++++++++++++-
 gitdb/db/git.py  | 12 ++++++++++--
 gitdb/db/pack.py | 29 ++++++++++++++++++++---------
 gitdb/db/ref.py  | 10 +++++++++-
 4 files changed, 62 insertions(+), 13 deletions(-)

diff --git a/gitdb/db/base.py b/gitdb/db/base.py
index 4ab526c..10ade5a 100644
--- a/gitdb/db/base.py
+++ b/gitdb/db/base.py
@@ -16,8 +16,10 @@ from gitdb.exc import (
 )
 
 from itertools import chain
-from functools import reduce
+from functools import reduce, wraps
 
+import os
+import threading
 
 __all__ = ('ObjectDBR', 'ObjectDBW', 'FileDBBase', 'CompoundDB', 'CachingDB')
 
@@ -133,6 +135,25 @@ class FileDBBase:
     #} END interface
 
 
+# Held while databases are loaded or updated, as a thread must not undo what another one has found
+update_lock = threading.RLock()
+if hasattr(os, 'register_at_fork'):
+    # don't leave it locked in a child process
+    os.register_at_fork(before=update_lock.acquire, after_in_parent=update_lock.release,
+                        after_in_child=update_lock.release)
+# END handle lock
+
+
+def one_at_a_time(method):
+    """Decorator for methods which load or update a database"""
+    @wraps(method)
+    def locked(*args, **kwargs):
+        with update_lock:
+            return method(*args, **kwargs)
+        # END assure we are alone
+    return locked
+
+
 class CachingDB:
 
     """A database which uses caches to speed-up access"""
@@ -230,6 +251,7 @@ class CompoundDB(ObjectDBR, LazyMixin, CachingDB):
         """:return: tuple of database instances we use for lookups"""
         return tuple(self._dbs)
 
+    @one_at_a_time
     def update_cache(self, force=False):
         # something might have changed, clear everything
         self._db_cache.clear()
diff --git a/gitdb/db/git.py b/gitdb/db/git.py
index eb7bd53..9948bd1 100644
--- a/gitdb/db/git.py
+++ b/gitdb/db/git.py
@@ -5,7 +5,9 @@
 from gitdb.db.base import (
     CompoundDB,
     ObjectDBW,
-    FileDBBase
+    FileDBBase,
+    one_at_a_time,
+    update_lock
 )
 
 from gitdb.db.loose import LooseObjectDB
@@ -46,7 +48,12 @@ class GitDB(FileDBBase, ObjectDBW, CompoundDB):
 
     def _set_cache_(self, attr):
         if attr == '_dbs' or attr == '_loose_db':
-            self._dbs, self._loose_db = self._find_dbs()
+            with update_lock:
+                # another thread might have been faster
+                if attr not in self.__dict__:
+                    self._dbs, self._loose_db = self._find_dbs()
+                # END load only once
+            # END assure we are alone
         else:
             super()._set_cache_(attr)
         # END handle attrs
@@ -81,6 +88,7 @@ class GitDB(FileDBBase, ObjectDBW, CompoundDB):
 
         return dbs, loose_db
 
+    @one_at_a_time
     def update_cache(self, force=False):
         # packs or alternates may have appeared or disappeared, look for them again
         # but keep the databases we have already. Others might be using them in the meantime
diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index 6b82db4..432d3ee 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -6,7 +6,9 @@
 from gitdb.db.base import (
     FileDBBase,
     ObjectDBR,
-    CachingDB
+    CachingDB,
+    one_at_a_time,
+    update_lock
 )
 
 from gitdb.util import LazyMixin
@@ -51,8 +53,12 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
 
     def _set_cache_(self, attr):
         if attr == '_entities':
-            # assigns our entities if successful
-            self.update_cache(force=True)
+            with update_lock:
+                # assigns our entities if successful. Another thread might have done so by now
+                if attr not in self.__dict__:
+                    self.update_cache(force=True)
+                # END load only once
+            # END assure we are alone
         # END handle entities initialization
 
     def _file_ids(self, pack_file):
@@ -67,12 +73,16 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
         return ids
 
     def _sort_entities(self):
-        # Don't change the list itself, other threads might be iterating it
-        entities = self._entities
-        by_hits = sorted(entities, key=lambda l: l[0], reverse=True)
-        if self._entities is entities:
-            self._entities = by_hits
-        # END don't undo updates
+        # It's not worth waiting for others
+        if not update_lock.acquire(blocking=False):
+            return
+        # END handle concurrent update
+        try:
+            # Don't change the list itself, other threads might be iterating it
+            self._entities = sorted(self._entities, key=lambda l: l[0], reverse=True)
+        finally:
+            update_lock.release()
+        # END assure lock is released
 
     def _pack_info(self, sha):
         """:return: tuple(entity, index) for an item at the given sha
@@ -146,6 +156,7 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
 
     #{ Interface
 
+    @one_at_a_time
     def update_cache(self, force=False):
         """
         Update our cache with the actually existing packs on disk. Add new ones,
diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index 4d3fa2a..f2bb189 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -5,6 +5,8 @@
 import os
 from gitdb.db.base import (
     CompoundDB,
+    one_at_a_time,
+    update_lock
 )
 
 __all__ = ('ReferenceDB', )
@@ -27,7 +29,12 @@ class ReferenceDB(CompoundDB):
 
     def _set_cache_(self, attr):
         if attr == '_dbs':
-            self._update_dbs_from_ref_file()
+            with update_lock:
+                # another thread might have been faster
+                if attr not in self.__dict__:
+                    self._update_dbs_from_ref_file()
+                # END load only once
+            # END assure we are alone
         else:
             super()._set_cache_(attr)
         # END handle attrs
@@ -91,6 +98,7 @@ class ReferenceDB(CompoundDB):
         # END for each path to add
         self._dbs = dbs
 
+    @one_at_a_time
     def update_cache(self, force=False):
         # re-read alternates and update databases
         previous_dbs = list(self._dbs)
-- 
2.43.0


From e528b129561328ac01422580823696d525dd3704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:55 +0000
Subject: [PATCH 53/68] fix: threads may store into a memory database at the
 same time

---
 gitdb/db/mem.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/gitdb/db/mem.py b/gitdb/db/mem.py
index 0261763..9616145 100644
--- a/gitdb/db/mem.py
+++ b/gitdb/db/mem.py
@@ -45,8 +45,6 @@ class MemoryDB(ObjectDBR, ObjectDBW):
 
     def __init__(self):
         super().__init__()
-        self._db = LooseObjectDB("path/doesnt/matter")
-
         # maps 20 byte shas to their OStream objects
         self._cache = dict()
 
@@ -63,10 +61,12 @@ class MemoryDB(ObjectDBR, ObjectDBW):
             return istream
         # END handle direct stream copies
 
+        # use an own database, others might be storing as well
         zstream = ZippedStoreShaWriter()
-        self._db.set_ostream(zstream)
+        db = LooseObjectDB("path/doesnt/matter")
+        db.set_ostream(zstream)
 
-        istream = self._db.store(istream)
+        istream = db.store(istream)
         zstream.close()     # close to flush
         zstream.seek(0)
 
-- 
2.43.0


From 099a972e3e89e0b38656862e16038b4fa573e97b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:55 +0000
Subject: [PATCH 54/68] fix: enumerating a memory database yields an iterator
 which isn't disturbed by stores

---
 gitdb/db/mem.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gitdb/db/mem.py b/gitdb/db/mem.py
index 9616145..43f362f 100644
--- a/gitdb/db/mem.py
+++ b/gitdb/db/mem.py
@@ -99,7 +99,8 @@ class MemoryDB(ObjectDBR, ObjectDBW):
         return len(self._cache)
 
     def sha_iter(self):
-        return self._cache.keys()
+        # others might be storing while the caller iterates
+        return iter(tuple(self._cache))
 
     #{ Interface
     def stream_copy(self, sha_iter, odb):
-- 
2.43.0


From 789da4e2cd4951cdbc13c9249848dada102ae378 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:55 +0000
Subject: [PATCH 55/68] fix: objects in linked fan-out directories are
 enumerated

---
 gitdb/db/loose.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index 79c5d04..1df79c5 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -287,7 +287,7 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
 
         # find all files which look like an object, extract sha from there
         is_hex = re.compile('[0-9a-f]+').fullmatch
-        for root, dirs, files in os.walk(self.root_path(), onerror=on_error):
+        for root, dirs, files in os.walk(self.root_path(), onerror=on_error, followlinks=True):
             if root == self.root_path():
                 # there are no objects in here or further below
                 dirs[:] = [d for d in dirs if len(d) == 2 and is_hex(d)]
-- 
2.43.0


From 809070c60a31c1ff8fd4b852d07b1bf28066c704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:55 +0000
Subject: [PATCH 56/68] fix: a failed write doesn't keep everything its callers
 used alive

---
 gitdb/stream.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 1651a0c..4d03d18 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -682,9 +682,6 @@ class FDCompressedSha1Writer(Sha1Writer):
     **Note:** for this to work, you have to use the close-method of this instance"""
     __slots__ = ("fd", "sha1", "zip")
 
-    # default exception
-    exc = IOError("Failed to write all bytes to filedescriptor")
-
     def __init__(self, fd):
         super().__init__()
         self.fd = fd
@@ -700,7 +697,7 @@ class FDCompressedSha1Writer(Sha1Writer):
         bytes_written = write(self.fd, cdata)
 
         if bytes_written != len(cdata):
-            raise self.exc
+            raise OSError("Failed to write all bytes to filedescriptor")
 
         return len(data)
 
@@ -708,7 +705,7 @@ class FDCompressedSha1Writer(Sha1Writer):
         try:
             remainder = self.zip.flush()
             if write(self.fd, remainder) != len(remainder):
-                raise self.exc
+                raise OSError("Failed to write all bytes to filedescriptor")
         finally:
             close(self.fd)
         # END assure descriptor is closed
-- 
2.43.0


From 922a8ccd79fcaf05dd2670c655837d24dd02a19b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:55 +0000
Subject: [PATCH 57/68] fix: paths of alternates are found whatever the
 encoding of file names

---
 gitdb/db/ref.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index f2bb189..8c42b01 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -51,8 +51,8 @@ class ReferenceDB(CompoundDB):
         ref_paths = list()
         try:
             # paths may contain any character and don't have to be valid in any encoding
-            with open(self._ref_file, encoding="utf-8", errors="surrogateescape", newline="\n") as f:
-                ref_paths = [l.strip("\r\n") for l in f]
+            with open(self._ref_file, 'rb') as f:
+                ref_paths = [os.fsdecode(l.strip(b"\r\n")) for l in f]
         except OSError:
             pass
         # END handle alternates
-- 
2.43.0


From 7b2fdb9ae2b342e3e68e2e1e225654093c9f7224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:17:55 +0000
Subject: [PATCH 58/68] fix: refusing to write invalid packs doesn't depend on
 assertions being enabled

---
 gitdb/pack.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 19f755c..d313ddd 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -342,8 +342,9 @@ class PackIndexFile(LazyMixin):
             self._version = (mmap[:4] == self.index_v2_signature and 2) or 1
             if self._version == 2:
                 version_id = unpack_from(">L", mmap, 4)[0]
-                assert version_id == self._version, "Unsupported index version: %i" % version_id
-            # END assert version
+                if version_id != self._version:
+                    raise ParseError("Unsupported index version: %i" % version_id)
+            # END check version
 
             # SETUP FUNCTIONS
             # setup our functions according to the actual version
@@ -1048,7 +1049,9 @@ class PackEntity(LazyMixin):
             zstream = zlib.compressobj(zlib_compression)
             ostream = obj.stream
             br, bw, crc = write_stream_to_pack(ostream.read, pwrite, zstream, base_crc=crc)
-            assert(br == obj.size)
+            if br != obj.size:
+                raise ValueError("Expected object of %i bytes, but its stream provided %i" % (obj.size, br))
+            # END assure the pack is valid
             if wants_index:
                 index.append(obj.binsha, crc, ofs)
             # END handle index
-- 
2.43.0


From 546d8d793fd2bf1df45c5e9e872191e96c7839f6 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 02:58:54 +0000
Subject: [PATCH 59/68] fix: asking a lazily loading object for an attribute it
 doesn't have neither fails nor has an effect

---
 gitdb/pack.py   | 12 ++++++++++--
 gitdb/stream.py | 12 +++++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index d313ddd..4e5cbb3 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -333,7 +333,8 @@ class PackIndexFile(LazyMixin):
                 raise AssertionError("The index file at %s is too large to fit into a mapped window (%i > %i). This is a limitation of the implementation" % (
                     self._indexpath, self._cursor.file_size(), mman.window_size()))
             # END assert window size
-        else:
+        elif attr in ('_version', '_fanout_table', '_crc_list_offset', '_pack_offset', '_pack_64_offset',
+                      'entry', 'offset', 'sha', 'crc'):
             # now its time to initialize everything - if we are here, someone wants
             # to access the fanout table or related properties
 
@@ -589,6 +590,10 @@ class PackFile(LazyMixin):
         self._cursor = None
 
     def _set_cache_(self, attr):
+        if attr not in ('_cursor', '_size', '_version'):
+            return super()._set_cache_(attr)
+        # END handle unknown attributes
+
         # we fill the whole cache, whichever attribute gets queried first
         with mman_lock:
             cursor = mman.make_cursor(self._packpath).use_region()
@@ -746,7 +751,10 @@ class PackEntity(LazyMixin):
         self._pack.close()
 
     def _set_cache_(self, attr):
-        # currently this can only be _offset_map
+        if attr != '_offset_map':
+            return super()._set_cache_(attr)
+        # END handle unknown attributes
+
         # TODO: make this a simple sorted offset array which can be bisected
         # to find the respective entry, from which we can take a +1 easily
         # This might be slower, but should also be much lighter in memory !
diff --git a/gitdb/stream.py b/gitdb/stream.py
index 4d03d18..b86f796 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -84,7 +84,9 @@ class DecompressMemMapReader(LazyMixin):
         self._close = close_on_deletion         # close the memmap on deletion ?
 
     def _set_cache_(self, attr):
-        assert attr == '_s'
+        if attr != '_s':
+            return super()._set_cache_(attr)
+        # END handle unknown attributes
         # only happens for size, which is a marker to indicate we still
         # have to parse the header from the stream
         self._parse_header_info()
@@ -390,6 +392,10 @@ class DeltaApplyReader(LazyMixin):
         self._br = 0
 
     def _set_cache_too_slow_without_c(self, attr):
+        if attr not in ('_mm_target', '_size'):
+            return super()._set_cache_(attr)
+        # END handle unknown attributes
+
         # the direct algorithm is fastest and most direct if there is only one
         # delta. Also, the extra overhead might not be worth it for items smaller
         # than X - definitely the case in python, every function call costs
@@ -425,6 +431,10 @@ class DeltaApplyReader(LazyMixin):
 
     def _set_cache_brute_(self, attr):
         """If we are here, we apply the actual deltas"""
+        if attr not in ('_mm_target', '_size'):
+            return super()._set_cache_(attr)
+        # END handle unknown attributes
+
         # TODO: There should be a special case if there is only one stream
         # Then the default-git algorithm should perform a tad faster, as the
         # delta is not peaked into, causing less overhead.
-- 
2.43.0


From e97b553f5651ad2a15cd6459198f86f485fe2286 Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 02:59:21 +0000
Subject: [PATCH 60/68] fix: reads which failed for want of memory can be tried
 again, and never go on with other data

---
 gitdb/stream.py | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index b86f796..370ac2f 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -63,7 +63,7 @@ class DecompressMemMapReader(LazyMixin):
         to better support streamed reading - it would only need to keep the mmap
         and decompress it into chunks, that's all ... """
     __slots__ = ('_m', '_zip', '_buf', '_buflen', '_br', '_cws', '_cwe', '_s', '_close',
-                 '_cbr', '_phi')
+                 '_cbr', '_phi', '_lost')
 
     max_read_size = 512 * 1024        # currently unused
 
@@ -81,6 +81,7 @@ class DecompressMemMapReader(LazyMixin):
         self._cwe = 0                           # end byte of compression window
         self._cbr = 0                           # number of compressed bytes read
         self._phi = False                       # is True if we parsed the header info
+        self._lost = False                      # is True if a read failed, and with it what it was to return
         self._close = close_on_deletion         # close the memmap on deletion ?
 
     def _set_cache_(self, attr):
@@ -213,12 +214,26 @@ class DecompressMemMapReader(LazyMixin):
         self._buf = None
         self._buflen = 0
         self._br = self._cws = self._cwe = self._cbr = 0
+        self._lost = False
         if self._phi:
             self._phi = False
             del(self._s)        # trigger header parsing on first access
         # END skip header
 
     def read(self, size=-1):
+        if self._lost:
+            raise OSError("A previous read failed, seek to position 0 to start over")
+        # END handle lost position
+        try:
+            return self._read(size)
+        except (ParseError, zlib.error):
+            raise       # will fail again
+        except:
+            self._lost = True
+            raise
+        # END assure we don't leave out what the failed read was to return
+
+    def _read(self, size):
         if size < 1:
             size = self._s - self._br
         else:
@@ -435,6 +450,17 @@ class DeltaApplyReader(LazyMixin):
             return super()._set_cache_(attr)
         # END handle unknown attributes
 
+        try:
+            self._apply_deltas()
+        except:
+            # allow to try again, all streams may have been read in part
+            for stream in (self._bstream,) + self._dstreams:
+                stream.stream.seek(0)
+            # END for each stream
+            raise
+        # END handle temporary problems
+
+    def _apply_deltas(self):
         # TODO: There should be a special case if there is only one stream
         # Then the default-git algorithm should perform a tad faster, as the
         # delta is not peaked into, causing less overhead.
@@ -533,6 +559,8 @@ class DeltaApplyReader(LazyMixin):
             count = bl
         # NOTE: we could check for certain size limits, and possibly
         # return buffers instead of strings to prevent byte copying
+        # A previous read might have moved on without returning anything
+        self._mm_target.seek(self._br)
         data = self._mm_target.read(count)
         self._br += len(data)
         return data
-- 
2.43.0


From 8918bce6e2da55b2014795457a0eb7532844870d Mon Sep 17 00:00:00 2001
From: x <x@x>
Date: Thu, 19 Nov 2026 02:59:21 +0000
Subject: [PATCH 61/68] fix: deltas aren't applied to a base whose data is
 incomplete

---
 gitdb/stream.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 370ac2f..33cb1fa 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -488,7 +488,10 @@ class DeltaApplyReader(LazyMixin):
         # Allocate private memory map big enough to hold the first base buffer
         # We need random access to it
         bbuf = allocate_memory(base_size)
-        stream_copy(self._bstream.read, bbuf.write, base_size, 256 * mmap.PAGESIZE)
+        base_bytes = stream_copy(self._bstream.read, bbuf.write, base_size, 256 * mmap.PAGESIZE)
+        if base_bytes != self._bstream.size:
+            raise ValueError("delta base has %i bytes, but only %i could be read" % (self._bstream.size, base_bytes))
+        # END verify base data
 
         # allocate memory map large enough for the largest (intermediate) target
         # We will use it as scratch space for all delta ops. If the final
-- 
2.43.0


From e192012a635455c75ee668e0cf337b7f7b2cae9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:41 +0000
Subject: [PATCH 62/68] fix: packs that are created are readable by everyone,
 like all other objects

---
 gitdb/pack.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 4e5cbb3..6e1a286 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -740,6 +740,11 @@ class PackEntity(LazyMixin):
     IndexFileCls = PackIndexFile
     PackFileCls = PackFile
 
+    # On windows we need to keep them writable, otherwise they cannot be removed
+    new_files_mode = int("444", 8)
+    if os.name == 'nt':
+        new_files_mode = int("644", 8)
+
     def __init__(self, pack_or_index_path):
         """Initialize ourselves with the path to the respective pack or index file"""
         basename, ext = os.path.splitext(pack_or_index_path)
@@ -1120,6 +1125,8 @@ class PackEntity(LazyMixin):
                 if os.path.isfile(path):
                     os.remove(tmp_path)
                 else:
+                    # like all other objects, they are for everyone, not just for us
+                    os.chmod(tmp_path, cls.new_files_mode)
                     os.rename(tmp_path, path)
                 # END rename only if needed
             # END for each file
-- 
2.43.0


From a06b0113163ab8940ebe197f9f9a64395eb96587 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:39 +0000
Subject: [PATCH 63/68] fix: objects get their mode before they become visible,
 and those of others are left alone

Storing an object again failed if its file belongs to another user, and objects
of a process that died right after the rename could be read by nobody else.
---
 gitdb/db/loose.py | 34 ++++++++++++++++------------------
 1 file changed, 16 insertions(+), 18 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index 1df79c5..12b534e 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -232,6 +232,22 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
             obj_path = self.db_path(self.object_path(hexsha))
             obj_dir = dirname(obj_path)
             try:
+                # It becomes visible complete with its mode. What is there already isn't ours to change
+                # Retry up to 14 times - quadratic wait & retry in ms.
+                # The total maximum wait time is 1000ms, which should be vastly enough for the
+                # OS to return and commit the file to disk.
+                for backoff_ms in [1, 4, 9, 16, 25, 36, 49, 64, 81, 100, 121, 144, 169, 181]:
+                    with suppress(PermissionError):
+                        # make sure its readable for all ! It started out as rw-- tmp file
+                        # but needs to be rwrr
+                        chmod(tmp_path, self.new_objects_mode)
+                        break
+                    time.sleep(backoff_ms / 1000.0)
+                else:
+                    raise PermissionError(
+                        "Impossible to apply `chmod` to file {}".format(tmp_path)
+                    )
+
                 # git removes directories which became empty, possibly right before we use them
                 for retries_left in range(9, -1, -1):
                     try:
@@ -255,24 +271,6 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
                 raise
             # END assure tmpfile removal on error
 
-            # Ensure rename is actually done and file is stable
-            # Retry up to 14 times - quadratic wait & retry in ms.
-            # The total maximum wait time is 1000ms, which should be vastly enough for the
-            # OS to return and commit the file to disk.
-            for backoff_ms in [1, 4, 9, 16, 25, 36, 49, 64, 81, 100, 121, 144, 169, 181]:
-                with suppress(PermissionError):
-                    # make sure its readable for all ! It started out as rw-- tmp file
-                    # but needs to be rwrr
-                    with suppress(FileNotFoundError):
-                        # git removes it if it is contained in a pack as well
-                        chmod(obj_path, self.new_objects_mode)
-                    break
-                time.sleep(backoff_ms / 1000.0)
-            else:
-                raise PermissionError(
-                    "Impossible to apply `chmod` to file {}".format(obj_path)
-                )
-
         # END handle dry_run
 
         istream.binsha = hex_to_bin(hexsha)
-- 
2.43.0


From 8021f6d314978dfbf1d21e3b6e69d08ddfc1e0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:39 +0000
Subject: [PATCH 64/68] fix: a locked file is committed with its mode, instead
 of changing it afterwards

---
 gitdb/util.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index f8c706d..c2c0d1b 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -442,6 +442,12 @@ class LockedFD:
         try:
             os.close(fd)
             if self._write and successful:
+                # assure others can at least read the file - the tmpfile left it at rw--
+                # We may also write that file, on windows that boils down to a remove-
+                # protection as well
+                # Once it is renamed, it's not ours anymore
+                chmod(lockfile, int("644", 8))
+
                 # on windows, rename does not silently overwrite the existing one
                 if sys.platform == "win32":
                     if isfile(self._filepath):
@@ -456,12 +462,7 @@ class LockedFD:
             raise
         # END assure the lock is released on error
 
-        if self._write and successful:
-            # assure others can at least read the file - the tmpfile left it at rw--
-            # We may also write that file, on windows that boils down to a remove-
-            # protection as well
-            chmod(self._filepath, int("644", 8))
-        else:
+        if not (self._write and successful):
             # just delete the file so far, we failed
             remove(lockfile)
         # END successful handling
-- 
2.43.0


From 81fb142e37e4d2fdbf812871f735abdd47b73724 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:38:39 +0000
Subject: [PATCH 65/68] fix: merging deltas and is_loose_object work in python
 3

---
 gitdb/fun.py | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index 24d2dad..692b80c 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -23,7 +23,7 @@ from gitdb.typ import (
     str_tag_type,
 )
 
-from io import StringIO
+from io import BytesIO
 
 # INVARIANTS
 OFS_DELTA = 6
@@ -154,7 +154,7 @@ def _closest_index(dcl, absofs):
     lo = 0
     hi = len(dcl)
     while lo < hi:
-        mid = (lo + hi) / 2
+        mid = (lo + hi) // 2
         dc = dcl[mid]
         if dc.to > absofs:
             hi = mid
@@ -261,7 +261,7 @@ class DeltaChunkList(list):
             if dc.data is None:
                 if first_data_index is not None and i - 2 - first_data_index > 1:
                     # if first_data_index is not None:
-                    nd = StringIO()                     # new data
+                    nd = BytesIO()                      # new data
                     so = self[first_data_index].to      # start offset in target buffer
                     for x in range(first_data_index, i - 1):
                         xdc = self[x]
@@ -310,7 +310,7 @@ class DeltaChunkList(list):
 
         left = islice(self, 0, len(self) - 1)
         right = iter(self)
-        right.next()
+        next(right)
         # this is very pythonic - we might have just use index based access here,
         # but this could actually be faster
         for lft, rgt in zip(left, right):
@@ -395,7 +395,7 @@ def is_loose_object(m):
     """
     :return: True the file contained in memory map m appears to be a loose object.
         Only the first two bytes are needed"""
-    b0, b1 = map(ord, m[:2])
+    b0, b1 = bytearray(m[:2])
     word = (b0 << 8) + b1
     return b0 == 0x78 and (word % 31) == 0
 
@@ -579,30 +579,30 @@ def connect_deltas(dstreams):
         # interpret opcodes
         tbw = 0                     # amount of target bytes written
         while i < delta_buf_size:
-            c = ord(db[i])
+            c = db[i]
             i += 1
             if c & 0x80:
                 cp_off, cp_size = 0, 0
                 if (c & 0x01):
-                    cp_off = ord(db[i])
+                    cp_off = db[i]
                     i += 1
                 if (c & 0x02):
-                    cp_off |= (ord(db[i]) << 8)
+                    cp_off |= (db[i] << 8)
                     i += 1
                 if (c & 0x04):
-                    cp_off |= (ord(db[i]) << 16)
+                    cp_off |= (db[i] << 16)
                     i += 1
                 if (c & 0x08):
-                    cp_off |= (ord(db[i]) << 24)
+                    cp_off |= (db[i] << 24)
                     i += 1
                 if (c & 0x10):
-                    cp_size = ord(db[i])
+                    cp_size = db[i]
                     i += 1
                 if (c & 0x20):
-                    cp_size |= (ord(db[i]) << 8)
+                    cp_size |= (db[i] << 8)
                     i += 1
                 if (c & 0x40):
-                    cp_size |= (ord(db[i]) << 16)
+                    cp_size |= (db[i] << 16)
                     i += 1
 
                 if not cp_size:
@@ -611,7 +611,7 @@ def connect_deltas(dstreams):
                 rbound = cp_off + cp_size
                 if (rbound < cp_size or
                         rbound > base_size):
-                    break
+                    raise ValueError("delta copies from outside of its base")
 
                 dcl.append(DeltaChunk(tbw, cp_size, cp_off, None))
                 tbw += cp_size
@@ -626,6 +626,10 @@ def connect_deltas(dstreams):
             # END handle command byte
         # END while processing delta data
 
+        if i != delta_buf_size or tbw != target_size:
+            raise ValueError("delta announced %i bytes, but yielded %i" % (target_size, tbw))
+        # END verify result size
+
         dcl.compress()
 
         # merge the lists !
-- 
2.43.0


From 7335caab83b080a12dd7fae83f4f4e8a724f78fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:48:35 +0000
Subject: [PATCH 66/68] fix: merging deltas verifies that each fits its base

---
 gitdb/fun.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index 692b80c..0323ee2 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -567,14 +567,19 @@ def connect_deltas(dstreams):
     tdcl = None                         # topmost dcl
 
     dcl = tdcl = TopdownDeltaChunkList()
+    base_size = None                    # size of what the previous delta is based on
     for dsi, ds in enumerate(dstreams):
         # print "Stream", dsi
         db = ds.read()
         delta_buf_size = ds.size
 
         # read header
+        required_size = base_size
         i, base_size = msb_size(db)
         i, target_size = msb_size(db, i)
+        if dsi > 0 and target_size != required_size:
+            raise ValueError("delta requires a base of %i bytes, but its base has %i" % (required_size, target_size))
+        # END verify base size
 
         # interpret opcodes
         tbw = 0                     # amount of target bytes written
-- 
2.43.0


From 8a6bbcfe43cc4c242a25054cc3587b69e73e58a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:35 +0000
Subject: [PATCH 67/68] fix: files which can't be examined are not taken for
 missing ones

---
 gitdb/db/git.py   |  9 ++++++++-
 gitdb/db/loose.py |  6 +++---
 gitdb/db/pack.py  | 12 ++++++++++--
 gitdb/util.py     | 12 ++++++++++++
 4 files changed, 33 insertions(+), 6 deletions(-)

diff --git a/gitdb/db/git.py b/gitdb/db/git.py
index 9948bd1..d6dd81f 100644
--- a/gitdb/db/git.py
+++ b/gitdb/db/git.py
@@ -15,6 +15,7 @@ from gitdb.db.pack import PackedDB
 from gitdb.db.ref import ReferenceDB
 
 from gitdb.exc import InvalidDBRoot
+from gitdb.util import stat_or_none
 
 import os
 
@@ -67,7 +68,13 @@ class GitDB(FileDBBase, ObjectDBW, CompoundDB):
                                (self.loose_dir, self.LooseDBCls),
                                (self.alternates_dir, self.ReferenceDBCls)):
             path = self.db_path(subpath)
-            if os.path.exists(path):
+            try:
+                found = stat_or_none(path) is not None
+            except OSError:
+                # don't leave it out, those who use it find out what's wrong
+                found = True
+            # END handle failure
+            if found:
                 dbs.append(dbcls(path))
                 if dbcls is self.LooseDBCls:
                     loose_db = dbs[-1]
diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index 12b534e..906a5ee 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -33,14 +33,14 @@ from gitdb.util import (
     ENOENT,
     hex_to_bin,
     bin_to_hex,
-    exists,
     chmod,
     isfile,
     remove,
     rename,
     dirname,
     basename,
-    join
+    join,
+    stat_or_none
 )
 
 from gitdb.fun import (
@@ -103,7 +103,7 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW, CachingDB):
 
         # try filesystem
         path = self.db_path(self.object_path(hexsha))
-        if exists(path):
+        if stat_or_none(path) is not None:
             cache[hexsha] = path
             return path
         # END handle cache
diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index 432d3ee..f52c7aa 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -11,7 +11,10 @@ from gitdb.db.base import (
     update_lock
 )
 
-from gitdb.util import LazyMixin
+from gitdb.util import (
+    LazyMixin,
+    stat_or_none
+)
 
 from gitdb.exc import (
     BadObject,
@@ -23,6 +26,7 @@ from gitdb.pack import PackEntity
 
 from contextlib import suppress
 from functools import reduce
+from stat import S_ISREG
 
 import os
 
@@ -61,6 +65,10 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
             # END assure we are alone
         # END handle entities initialization
 
+    def _has_index(self, pack_file):
+        st = stat_or_none(os.path.splitext(pack_file)[0] + ".idx")
+        return st is not None and S_ISREG(st.st_mode)
+
     def _file_ids(self, pack_file):
         """:return: list of values identifying the contents of the given pack and its index"""
         ids = list()
@@ -177,7 +185,7 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
         pack_files = {self.db_path(name)
                       for name in os.listdir(self.root_path())
                       if name.startswith("pack-") and name.endswith(".pack")
-                      and os.path.isfile(os.path.splitext(self.db_path(name))[0] + ".idx")}
+                      and self._has_index(self.db_path(name))}
         # assigned once it's complete, as others might be using it in the meantime
         entities = list(self.__dict__.get('_entities', ()))
         # packs whose files have been replaced are new ones
diff --git a/gitdb/util.py b/gitdb/util.py
index c2c0d1b..d5757b0 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -116,6 +116,18 @@ close = os.close
 fsync = os.fsync
 
 
+def stat_or_none(path):
+    """:return: stat result of path, or None if there is nothing
+    :raise OSError: if it can't be told whether there is something"""
+    try:
+        return os.stat(path)
+    except OSError as e:
+        if e.errno not in (ENOENT, errno.ENOTDIR, errno.ELOOP):
+            raise
+        return None
+    # END handle missing files
+
+
 def _retry(func, *args, **kwargs):
     # Wrapper around functions, that are problematic on "Windows". Sometimes
     # the OS or someone else has still a handle to the file
-- 
2.43.0


From 49324340f66f5fb413a377f406215a4bc7a4f25f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:25:35 +0000
Subject: [PATCH 68/68] fix: the null stream yields bytes

---
 gitdb/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 33cb1fa..e013a94 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -801,7 +801,7 @@ class NullStream:
     __slots__ = tuple()
 
     def read(self, size=0):
-        return ''
+        return b''
 
     def close(self):
         pass
-- 
2.43.0

