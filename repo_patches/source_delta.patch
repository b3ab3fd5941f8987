From e141c95cdc2a4a6c6985690766c211ed12d3cc15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:46 +0000
Subject: [PATCH 01/20] fix: make the membership operator of object databases
 work

``__contains__`` referred to an attribute that does not exist.
---
 gitdb/db/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/db/base.py b/gitdb/db/base.py
index 7312fe0..245bce2 100644
--- a/gitdb/db/base.py
+++ b/gitdb/db/base.py
@@ -28,7 +28,7 @@ class ObjectDBR:
     Objects are identified either by their 20 byte bin sha"""
 
     def __contains__(self, sha):
-        return self.has_obj
+        return self.has_object(sha)
 
     #{ Query Interface
     def has_object(self, sha):
-- 
2.43.0


From 3a6e18a7a46c8f355d3bcb74b9ccb0f1efe0a32b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:46 +0000
Subject: [PATCH 02/20] fix: forget buffered content when rewinding a
 decompressing stream

What was left in the buffer was mistaken for the object header otherwise.
---
 gitdb/stream.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 1e0be84..0b4b101 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -206,6 +206,8 @@ class DecompressMemMapReader(LazyMixin):
 
         self._zip = zlib.decompressobj()
         self._br = self._cws = self._cwe = self._cbr = 0
+        self._buf = None
+        self._buflen = 0
         if self._phi:
             self._phi = False
             del(self._s)        # trigger header parsing on first access
-- 
2.43.0


From 4a7e9e8891228ca453d435e348ffe2e6a6636cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:46 +0000
Subject: [PATCH 03/20] fix: do not read more than requested after depleting
 the header buffer

The bytes taken from the buffer were subtracted twice, and a size below one
means to read everything.
---
 gitdb/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 0b4b101..74f5cdb 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -316,7 +316,7 @@ class DecompressMemMapReader(LazyMixin):
         # to read, if we are called by compressed_bytes_read - it manipulates
         # us to empty the stream
         if dcompdat and (len(dcompdat) - len(dat)) < size and self._br < self._s:
-            dcompdat += self.read(size - len(dcompdat))
+            dcompdat += self.read(size - (len(dcompdat) - len(dat)))
         # END handle special case
         return dcompdat
 
-- 
2.43.0


From 5bb30eab8c92ef87e35db696676d544d43272c78 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:46 +0000
Subject: [PATCH 04/20] fix: do not report the end of a stream while there is
 data left

A small window may contain nothing but meta data of the compression, in which
case read() returned nothing even though the stream was not depleted.
---
 gitdb/stream.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 74f5cdb..9561b22 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -283,6 +283,14 @@ class DecompressMemMapReader(LazyMixin):
         # get the actual window end to be sure we don't use it for computations
         self._cwe = self._cws + len(indata)
         dcompdat = self._zip.decompress(indata, size)
+        while not dcompdat and indata and not self._zip.eof:
+            # the window was used up without producing any data, hand in the next one
+            self._cbr += len(indata)
+            self._cws = self._cwe
+            indata = self._m[self._cws:self._cws + max(size, 8)]
+            self._cwe = self._cws + len(indata)
+            dcompdat = self._zip.decompress(indata, size)
+        # END handle window without output
         # update the amount of compressed bytes read
         # We feed possibly overlapping chunks, which is why the unconsumed tail
         # has to be taken into consideration, as well as the unused data
-- 
2.43.0


From c86cd276fb298339f27b4462846c0cb3d3368645 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:46 +0000
Subject: [PATCH 05/20] fix: determine the compressed size of empty objects

compressed_bytes_read() never returned for them, and thus iterating a pack with
an empty blob never ended.
---
 gitdb/stream.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 9561b22..e9ca8d0 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -175,6 +175,9 @@ class DecompressMemMapReader(LazyMixin):
         if self._br == self._s and not self._zip.unused_data:
             # manipulate the bytes-read to allow our own read method to continue
             # but keep the window at its current position
+            # An empty object has compressed bytes as well, assure they are read
+            size = self._s
+            self._s = max(size, 1)
             self._br = 0
             if hasattr(self._zip, 'status'):
                 while self._zip.status == zlib.Z_OK:
@@ -188,7 +191,7 @@ class DecompressMemMapReader(LazyMixin):
             # END handle stream scrubbing
 
             # reset bytes read, just to be sure
-            self._br = self._s
+            self._br = self._s = size
         # END handle stream scrubbing
 
         # unused data ends up in the unconsumed tail, which was removed
-- 
2.43.0


From 499e38b26ebfe94187984aaa0c5accc05ca26fb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:12:46 +0000
Subject: [PATCH 06/20] fix: return the number of bytes from
 FlexibleSha1Writer.write

Otherwise it can't be used as output stream of a database.
---
 gitdb/stream.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index e9ca8d0..3e36529 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -611,9 +611,11 @@ class FlexibleSha1Writer(Sha1Writer):
         self.writer = writer
 
     def write(self, data):
-        Sha1Writer.write(self, data)
+        alen = Sha1Writer.write(self, data)
         self.writer(data)
 
+        return alen
+
 
 class ZippedStoreShaWriter(Sha1Writer):
 
-- 
2.43.0


From 3ceb35b7b10607a03f3196be92f9018597ceb2b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:38 +0000
Subject: [PATCH 07/20] fix: raise if a delta copies data from beyond the end
 of its source

The remaining operations were silently skipped, yielding incomplete data.
---
 gitdb/fun.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/fun.py b/gitdb/fun.py
index a272e5c..26fff04 100644
--- a/gitdb/fun.py
+++ b/gitdb/fun.py
@@ -664,7 +664,7 @@ def apply_delta_data(src_buf, src_buf_size, delta_buf, delta_buf_size, write):
             rbound = cp_off + cp_size
             if (rbound < cp_size or
                     rbound > src_buf_size):
-                break
+                raise ValueError("delta copies data beyond the end of its source")
             write(src_buf[cp_off:cp_off + cp_size])
         elif c:
             write(db[i:i + c])
-- 
2.43.0


From c4b313495f1ea41325aa63d10cf87dfbe4820717 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:38 +0000
Subject: [PATCH 08/20] fix: raise if the sizes a delta announces do not match
 its data

A source or result of a different size, as well as base or delta data ending
early, went unnoticed and yielded data of unrelated content.
---
 gitdb/stream.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 3e36529..94c4080 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -443,7 +443,10 @@ class DeltaApplyReader(LazyMixin):
         # Allocate private memory map big enough to hold the first base buffer
         # We need random access to it
         bbuf = allocate_memory(base_size)
-        stream_copy(self._bstream.read, bbuf.write, base_size, 256 * mmap.PAGESIZE)
+        src_buf_size = stream_copy(self._bstream.read, bbuf.write, base_size, 256 * mmap.PAGESIZE)
+        if src_buf_size != self._bstream.size:
+            raise ValueError("base object is incomplete")
+        # END handle damaged base
 
         # allocate memory map large enough for the largest (intermediate) target
         # We will use it as scratch space for all delta ops. If the final
@@ -457,6 +460,10 @@ class DeltaApplyReader(LazyMixin):
         # slices.
         final_target_size = None
         for (dbuf, offset, src_size, target_size), dstream in zip(reversed(buffer_info_list), reversed(self._dstreams)):
+            if src_size != src_buf_size:
+                raise ValueError("delta was made for a source of %i bytes, not %i" % (src_size, src_buf_size))
+            # END handle source mismatch
+
             # allocate a buffer to hold all delta data - fill in the data for
             # fast access. We do this as we know that reading individual bytes
             # from our stream would be slower than necessary ( although possible )
@@ -465,13 +472,19 @@ class DeltaApplyReader(LazyMixin):
             ddata = allocate_memory(dstream.size - offset)
             ddata.write(dbuf)
             # read the rest from the stream. The size we give is larger than necessary
-            stream_copy(dstream.read, ddata.write, dstream.size, 256 * mmap.PAGESIZE)
+            dbw = stream_copy(dstream.read, ddata.write, dstream.size, 256 * mmap.PAGESIZE)
+            if len(dbuf) + dbw != len(ddata):
+                raise ValueError("delta is incomplete")
+            # END handle damaged delta
 
             #######################################################################
             if 'c_apply_delta' in globals():
                 c_apply_delta(bbuf, ddata, tbuf)
             else:
                 apply_delta_data(bbuf, src_size, ddata, len(ddata), tbuf.write)
+                if tbuf.tell() != target_size:
+                    raise ValueError("delta produced %i bytes instead of %i" % (tbuf.tell(), target_size))
+                # END handle result mismatch
             #######################################################################
 
             # finally, swap out source and target buffers. The target is now the
@@ -479,7 +492,7 @@ class DeltaApplyReader(LazyMixin):
             bbuf, tbuf = tbuf, bbuf
             bbuf.seek(0)
             tbuf.seek(0)
-            final_target_size = target_size
+            final_target_size = src_buf_size = target_size
         # END for each delta to apply
 
         # its already seeked to 0, constrain it to the actual size
-- 
2.43.0


From 57fe7e6906f6f38bfeb7a196c2cb77ebe6904a4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:38 +0000
Subject: [PATCH 09/20] fix: resolve offset deltas which are the base of a
 reference delta

Their relative distance was used as absolute offset into the pack.
---
 gitdb/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index e559e11..31a7042 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -889,7 +889,7 @@ class PackEntity(LazyMixin):
                     # must be another OFS DELTA - this could happen if a REF
                     # delta we resolve previously points to an OFS delta. Who
                     # would do that ;) ? We can handle it though
-                    stream = self._pack.stream(stream.delta_info)
+                    stream = self._pack.stream(stream.pack_offset - stream.delta_info)
                     streams.append(stream)
                 # END handle ref delta
             # END resolve ref streams
-- 
2.43.0


From 1fed369adb45ff9a531b412dee7744791fef821c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:38 +0000
Subject: [PATCH 10/20] fix: detect ambiguous abbreviated ids within a pack

The following id was compared with the found one, which never is equal, instead
of with the abbreviation.
---
 gitdb/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 31a7042..206db2d 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -484,7 +484,7 @@ class PackIndexFile(LazyMixin):
                 next_sha = None
                 if lo + 1 < self.size():
                     next_sha = get_sha(lo + 1)
-                if next_sha and next_sha == cur_sha:
+                if next_sha and is_equal_canonical_sha(canonical_length, partial_bin_sha, next_sha):
                     raise AmbiguousObjectName(partial_bin_sha)
                 return lo
             # END if we have a match
-- 
2.43.0


From 50fe3b97e96fade2818ea645f8446d167eeeca60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:13:38 +0000
Subject: [PATCH 11/20] fix: list the actual offsets of objects beyond 2 GiB

PackIndexFile.offsets() returned the position in the table of large offsets
instead.
---
 gitdb/pack.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index 206db2d..c021e16 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -409,6 +409,9 @@ class PackIndexFile(LazyMixin):
             # networkbyteorder to something array likes more
             if sys.byteorder == 'little':
                 a.byteswap()
+            if a and max(a) & 0x80000000:
+                # some offsets are in the table of 64 bit offsets
+                return tuple(self.offset(index) for index in range(self.size()))
             return a
         else:
             return tuple(self.offset(index) for index in range(self.size()))
-- 
2.43.0


From ecf2ad4d45770cacc14c6a974af7afa537a47e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:30 +0000
Subject: [PATCH 12/20] fix: raise if a file descriptor does not take all bytes
 written to it

A pre-compressed object could be stored incompletely.
---
 gitdb/stream.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 94c4080..2c95d92 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -717,8 +717,11 @@ class FDStream:
         self._pos = 0
 
     def write(self, data):
-        self._pos += len(data)
-        os.write(self._fd, data)
+        bytes_written = os.write(self._fd, data)
+        self._pos += bytes_written
+        if bytes_written != len(data):
+            raise OSError("Failed to write all bytes to filedescriptor")
+        return bytes_written
 
     def read(self, count=0):
         if count == 0:
-- 
2.43.0


From bd8f57ed988f367a429d9a8dc53c1d97c61b70ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:30 +0000
Subject: [PATCH 13/20] fix: raise if a new pack or index could not be written
 completely

---
 gitdb/pack.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gitdb/pack.py b/gitdb/pack.py
index c021e16..d8b931e 100644
--- a/gitdb/pack.py
+++ b/gitdb/pack.py
@@ -55,6 +55,7 @@ from gitdb.stream import (
     DeltaApplyReader,
     Sha1Writer,
     NullStream,
+    FDStream,
     FlexibleSha1Writer
 )
 
@@ -1016,8 +1017,8 @@ class PackEntity(LazyMixin):
         **Note:** for more information on the other parameters see the write_pack method"""
         pack_fd, pack_path = tempfile.mkstemp('', 'pack', base_dir)
         index_fd, index_path = tempfile.mkstemp('', 'index', base_dir)
-        pack_write = lambda d: os.write(pack_fd, d)
-        index_write = lambda d: os.write(index_fd, d)
+        pack_write = FDStream(pack_fd).write
+        index_write = FDStream(index_fd).write
 
         pack_binsha, index_binsha = cls.write_pack(object_iter, pack_write, index_write, object_count, zlib_compression)
         os.close(pack_fd)
-- 
2.43.0


From 4c8713fef46df745ddbba7fe86e8ada65d6d62b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:30 +0000
Subject: [PATCH 14/20] fix: remove the temporary file if an object can't be
 moved into place

---
 gitdb/db/loose.py | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/gitdb/db/loose.py b/gitdb/db/loose.py
index e6765cd..dbed1b8 100644
--- a/gitdb/db/loose.py
+++ b/gitdb/db/loose.py
@@ -220,14 +220,19 @@ class LooseObjectDB(FileDBBase, ObjectDBR, ObjectDBW):
         if tmp_path:
             obj_path = self.db_path(self.object_path(hexsha))
             obj_dir = dirname(obj_path)
-            os.makedirs(obj_dir, exist_ok=True)
-            # END handle destination directory
-            # rename onto existing doesn't work on NTFS
-            if isfile(obj_path):
+            try:
+                os.makedirs(obj_dir, exist_ok=True)
+                # END handle destination directory
+                # rename onto existing doesn't work on NTFS
+                if isfile(obj_path):
+                    remove(tmp_path)
+                else:
+                    rename(tmp_path, obj_path)
+                # end rename only if needed
+            except:
                 remove(tmp_path)
-            else:
-                rename(tmp_path, obj_path)
-            # end rename only if needed
+                raise
+            # END assure tmpfile removal on error
 
             # Ensure rename is actually done and file is stable
             # Retry up to 14 times - quadratic wait & retry in ms.
-- 
2.43.0


From 5a7d71e7866e24826c5a0f033eaf35808e1b8649 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:30 +0000
Subject: [PATCH 15/20] fix: release the lock if committing to the locked file
 fails

---
 gitdb/util.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/gitdb/util.py b/gitdb/util.py
index bb6d879..e286b99 100644
--- a/gitdb/util.py
+++ b/gitdb/util.py
@@ -384,7 +384,12 @@ class LockedFD:
                     remove(self._filepath)
                 # END remove if exists
             # END win32 special handling
-            os.rename(lockfile, self._filepath)
+            try:
+                os.rename(lockfile, self._filepath)
+            except:
+                remove(lockfile)
+                raise
+            # END release lock on error
 
             # assure others can at least read the file - the tmpfile left it at rw--
             # We may also write that file, on windows that boils down to a remove-
-- 
2.43.0


From ac7e64e3aa5358bca1d1403ceb883a2debfed133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:14:44 +0000
Subject: [PATCH 16/20] fix: do not compress objects with known id again in the
 memory database

Copying streams from one memory database to another made them unreadable.
---
 gitdb/db/mem.py | 20 +++++++++++++-------
 1 file changed, 13 insertions(+), 7 deletions(-)

diff --git a/gitdb/db/mem.py b/gitdb/db/mem.py
index d4772fd..a450c84 100644
--- a/gitdb/db/mem.py
+++ b/gitdb/db/mem.py
@@ -47,16 +47,22 @@ class MemoryDB(ObjectDBR, ObjectDBW):
         raise UnsupportedOperation("MemoryDB's always stream into memory")
 
     def store(self, istream):
-        zstream = ZippedStoreShaWriter()
-        self._db.set_ostream(zstream)
-
-        istream = self._db.store(istream)
-        zstream.close()     # close to flush
-        zstream.seek(0)
+        if istream.binsha is None:
+            zstream = ZippedStoreShaWriter()
+            self._db.set_ostream(zstream)
+
+            istream = self._db.store(istream)
+            zstream.close()     # close to flush
+            zstream.seek(0)
+            data = zstream.getvalue()
+        else:
+            # the data is compressed already, see ObjectDBW.store
+            data = istream.read()
+        # END handle object format
 
         # don't provide a size, the stream is written in object format, hence the
         # header needs decompression
-        decomp_stream = DecompressMemMapReader(zstream.getvalue(), close_on_deletion=False)
+        decomp_stream = DecompressMemMapReader(data, close_on_deletion=False)
         self._cache[istream.binsha] = OStream(istream.binsha, istream.type, istream.size, decomp_stream)
 
         return istream
-- 
2.43.0


From 78154fc848b12c6d23f31d113cff7c18599f5b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:38 +0000
Subject: [PATCH 17/20] fix: count compressed bytes correctly if data follows
 an object with header

---
 gitdb/stream.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 2c95d92..192b460 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -326,7 +326,9 @@ class DecompressMemMapReader(LazyMixin):
         # Note: dcompdat can be empty even though we still appear to have bytes
         # to read, if we are called by compressed_bytes_read - it manipulates
         # us to empty the stream
-        if dcompdat and (len(dcompdat) - len(dat)) < size and self._br < self._s:
+        # Once the stream ended, there is nothing left to order. Anything handed in would
+        # wrongly be taken off the amount of compressed bytes.
+        if dcompdat and (len(dcompdat) - len(dat)) < size and self._br < self._s and not self._zip.eof:
             dcompdat += self.read(size - (len(dcompdat) - len(dat)))
         # END handle special case
         return dcompdat
-- 
2.43.0


From 1dc0f82da377d8109b1f147e139f304672e15f42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:58:57 +0000
Subject: [PATCH 18/20] fix: count unused bytes once when a compressed stream
 ends within a partly consumed window

zlib keeps an unconsumed tail equal to the unused data if the window before was
not consumed completely, hence compressed_bytes_read() was too small.
---
 gitdb/stream.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gitdb/stream.py b/gitdb/stream.py
index 192b460..0a752a7 100644
--- a/gitdb/stream.py
+++ b/gitdb/stream.py
@@ -309,6 +309,9 @@ class DecompressMemMapReader(LazyMixin):
         # IT's CERTAINLY GOING TO BITE US IN THE FUTURE ... .
         if getattr(zlib, 'ZLIB_RUNTIME_VERSION', zlib.ZLIB_VERSION) in ('1.2.7', '1.2.5') and not sys.platform == 'darwin':
             unused_datalen = len(self._zip.unconsumed_tail)
+        elif self._zip.eof:
+            # the unconsumed tail may hold the very same bytes as the unused data then
+            unused_datalen = len(self._zip.unused_data)
         else:
             unused_datalen = len(self._zip.unconsumed_tail) + len(self._zip.unused_data)
         # # end handle very special case ...
-- 
2.43.0


From 3d1135ddc6dd1a0251452cf577d05d0068dfdce3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:33:01 +0000
Subject: [PATCH 19/20] fix: find packs in directories whose path contains glob
 characters

---
 gitdb/db/pack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/db/pack.py b/gitdb/db/pack.py
index 274ea59..6fc5ed7 100644
--- a/gitdb/db/pack.py
+++ b/gitdb/db/pack.py
@@ -146,7 +146,7 @@ class PackedDB(FileDBBase, ObjectDBR, CachingDB, LazyMixin):
 
         # packs are supposed to be prefixed with pack- by git-convention
         # get all pack files, figure out what changed
-        pack_files = set(glob.glob(os.path.join(self.root_path(), "pack-*.pack")))
+        pack_files = set(glob.glob(os.path.join(glob.escape(self.root_path()), "pack-*.pack")))
         our_pack_files = {item[1].pack().path() for item in self._entities}
 
         # new packs
-- 
2.43.0


From d98399940d02196f5c98a55b856eb557115a0c2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:38 +0000
Subject: [PATCH 20/20] fix: blank lines of a reference file do not refer to
 databases

---
 gitdb/db/ref.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gitdb/db/ref.py b/gitdb/db/ref.py
index bd30156..e37b7cd 100644
--- a/gitdb/db/ref.py
+++ b/gitdb/db/ref.py
@@ -43,7 +43,7 @@ class ReferenceDB(CompoundDB):
         ref_paths = list()
         try:
             with codecs.open(self._ref_file, 'r', encoding="utf-8") as f:
-                ref_paths = [l.strip() for l in f]
+                ref_paths = [l.strip() for l in f if l.strip()]
         except OSError:
             pass
         # END handle alternates
-- 
2.43.0

