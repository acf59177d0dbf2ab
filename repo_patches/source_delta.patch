From 04fbeb43c104b09a0d83def287b651bad674ca9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:38 +0000
Subject: [PATCH 01/31] fix: LimitReader: negative read size must not read past
 the limit

---
 warcio/limitreader.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/warcio/limitreader.py b/warcio/limitreader.py
index bfa6d9e..ef81bd7 100644
--- a/warcio/limitreader.py
+++ b/warcio/limitreader.py
@@ -15,7 +15,7 @@ class LimitReader(object):
         return buff
 
     def read(self, length=None):
-        if length is not None:
+        if length is not None and length >= 0:
             length = min(length, self.limit)
         else:
             length = self.limit
@@ -27,7 +27,7 @@ class LimitReader(object):
         return self._update(buff)
 
     def readline(self, length=None):
-        if length is not None:
+        if length is not None and length >= 0:
             length = min(length, self.limit)
         else:
             length = self.limit
-- 
2.43.0


From 65b86256a29d60e7b1118aab7854f2ecab6c659d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:46 +0000
Subject: [PATCH 02/31] fix: LimitReader.wrap_stream: narrowing the limit must
 not change tell()

---
 warcio/limitreader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/warcio/limitreader.py b/warcio/limitreader.py
index ef81bd7..834789b 100644
--- a/warcio/limitreader.py
+++ b/warcio/limitreader.py
@@ -57,7 +57,10 @@ class LimitReader(object):
                 # optimize: if already a LimitStream, set limit to
                 # the smaller of the two limits
                 if isinstance(stream, LimitReader):
-                    stream.limit = min(stream.limit, content_length)
+                    # keep tell() == number of bytes read so far
+                    cut = max(stream.limit - content_length, 0)
+                    stream.limit -= cut
+                    stream._orig_limit -= cut
                 else:
                     stream = LimitReader(stream, content_length)
 
-- 
2.43.0


From a891294917448b7d82afeb62ec20fa9496e97571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:53 +0000
Subject: [PATCH 03/31] fix: BufferedReader.readline(length): do not cut lines
 spanning 3+ buffers short

---
 warcio/bufferedreaders.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 80a4612..643d791 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -191,9 +191,10 @@ class BufferedReader(object):
 
         # we may be at a boundary
         while not linebuff.endswith(b'\n'):
-            if length:
-                length -= len(linebuff)
-                if length <= 0:
+            rem = None
+            if length is not None and length > 0:
+                rem = length - len(linebuff)
+                if rem <= 0:
                     break
 
             self._fillbuff()
@@ -201,7 +202,7 @@ class BufferedReader(object):
             if self.empty():
                 break
 
-            linebuff += self.buff.readline(length)
+            linebuff += self.buff.readline(rem)
 
         return linebuff
 
-- 
2.43.0


From bde56e75e22777f68a8bb3e72b91992646115ef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:01 +0000
Subject: [PATCH 04/31] fix: BufferedReader.read: negative size means read all,
 not nothing

---
 warcio/bufferedreaders.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 643d791..61429aa 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -157,6 +157,9 @@ class BufferedReader(object):
         if at buffer boundary, will attempt to read again until
         specified length is read
         """
+        if length is not None and length < 0:
+            length = None
+
         all_buffs = []
         while length is None or length > 0:
             self._fillbuff()
-- 
2.43.0


From e73d1354cb9240fc1c07c94c8efd9e3382c83796 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:37 +0000
Subject: [PATCH 05/31] fix: BufferedReader: keep data read before detecting
 that it is not compressed

---
 warcio/bufferedreaders.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 61429aa..31dc836 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -83,6 +83,8 @@ class BufferedReader(object):
 
     def _init_decomp(self, decomp_type):
         self.num_block_read = 0
+        # raw data given to the decompressor while it had no output yet
+        self.undecoded = b''
         if decomp_type:
             try:
                 self.decomp_type = decomp_type
@@ -133,11 +135,16 @@ class BufferedReader(object):
 
     def _decompress(self, data):
         if self.decompressor and data:
+            raw = data
             try:
-                data = self.decompressor.decompress(data)
+                data = self.decompressor.decompress(raw)
+                self.undecoded = b'' if data else self.undecoded + raw
             except Exception as e:
                 # if first read attempt, assume non-gzipped stream
                 if self.num_block_read == 0:
+                    # includes anything read before the failure was detected
+                    data = self.undecoded + raw
+                    self.undecoded = b''
                     if self.decomp_type == 'deflate':
                         self._init_decomp('deflate_alt')
                         data = self._decompress(data)
-- 
2.43.0


From d72dae879346a9a89d27c47ad1e7b17833b3d817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:44 +0000
Subject: [PATCH 06/31] fix: ChunkedDataReader: a negative chunk size is not a
 chunk header

---
 warcio/bufferedreaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 31dc836..f00071f 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -338,7 +338,7 @@ class ChunkedDataReader(BufferedReader):
             chunk_size = length_header[:-2].split(b';')[0]
             chunk_size = int(chunk_size, 16)
             # sanity check chunk size
-            assert(chunk_size <= 2**31)
+            assert(0 <= chunk_size <= 2**31)
         except (ValueError, AssertionError):
             raise ChunkedDataException(b"Couldn't decode length header " +
                                        length_header)
-- 
2.43.0


From ca31988dc8207cdf23ef0fb61841f5e11e1f868b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:32 +0000
Subject: [PATCH 07/31] fix: ChunkedDataReader: accept trailer fields and cut
 off data after the last chunk

---
 warcio/bufferedreaders.py | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index f00071f..26dbd56 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -344,12 +344,19 @@ class ChunkedDataReader(BufferedReader):
                                        length_header)
 
         if not chunk_size:
-            # chunk_size 0 indicates end of file. read final bytes to compute digest.
-            final_data = self.stream.read(2)
-            try:
-                assert(final_data == b'\r\n')
-            except AssertionError:
-                raise ChunkedDataException(b"Incorrect \r\n after length header of 0")
+            # chunk_size 0 indicates end of file, followed by optional trailer
+            # fields. read final bytes to compute digest.
+            final_data = b''
+            line = self.stream.readline()
+            while b':' in line:
+                final_data += line
+                line = self.stream.readline()
+
+            # if not raising, also ok if cut off before the final \r\n
+            if line != b'\r\n' and (self.raise_chunked_data_exceptions or
+                                    not b'\r\n'.startswith(line)):
+                raise ChunkedDataException(b"Incorrect \r\n after length header of 0",
+                                           final_data + line)
             self.all_chunks_read = True
             self._process_read(b'')
             return
-- 
2.43.0


From 99194d2c8da3cae0e7d7f57b81152895c6317dd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:40 +0000
Subject: [PATCH 08/31] fix: StatusAndHeaders.replace_header: replace the
 header returned by get_header

---
 warcio/statusandheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index ce42d66..5f35259 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -52,7 +52,7 @@ class StatusAndHeaders(object):
         return old header value, if any
         """
         name_lower = name.lower()
-        for index in range(len(self.headers) - 1, -1, -1):
+        for index in range(len(self.headers)):
             curr_name, curr_value = self.headers[index]
             if curr_name.lower() == name_lower:
                 self.headers[index] = (curr_name, value)
-- 
2.43.0


From b27a50f42c3c0ebb32a368802a92f049cedf85d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:47 +0000
Subject: [PATCH 09/31] fix: StatusAndHeaders.remove_header: remove all headers
 with the name

---
 warcio/statusandheaders.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index 5f35259..8e6e1cc 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -67,12 +67,13 @@ class StatusAndHeaders(object):
         return True if header removed, False otherwise
         """
         name_lower = name.lower()
+        removed = False
         for index in range(len(self.headers) - 1, -1, -1):
             if self.headers[index][0].lower() == name_lower:
                 del self.headers[index]
-                return True
+                removed = True
 
-        return False
+        return removed
 
     def get_statuscode(self):
         """
-- 
2.43.0


From af7963f8a766765a11d26ca979f675a7f6e7c246 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 10/31] fix: StatusAndHeaders: headers with an empty value are
 contained

---
 warcio/statusandheaders.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index 8e6e1cc..5ee2e39 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -216,7 +216,7 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
     __setitem__ = replace_header
     __delitem__ = remove_header
     def __contains__(self, key):
-        return bool(self[key])
+        return self[key] is not None
 
 #=================================================================
 def _strip_count(string, total_read):
-- 
2.43.0


From 9867e341b51dd9a34e81f5837483b3df337ba4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:26 +0000
Subject: [PATCH 11/31] fix: StatusAndHeaders.to_ascii_bytes: encode all
 non-ascii parts

A non-ascii status line, protocol or header name, or a header with non-ascii
text outside its parameter values, raised UnicodeEncodeError.
---
 warcio/statusandheaders.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/warcio/statusandheaders.py b/warcio/statusandheaders.py
index 5ee2e39..7e8ae80 100644
--- a/warcio/statusandheaders.py
+++ b/warcio/statusandheaders.py
@@ -13,6 +13,8 @@ import re
 
 #=================================================================
 class StatusAndHeaders(object):
+    ASCII = ''.join(chr(c) for c in range(128))
+
     ENCODE_HEADER_RX = re.compile(r'[=]["\']?([^;"]+)["\']?(?=[;]?)')
     """
     Representation of parsed http-style status line and headers
@@ -190,8 +192,14 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
         def do_encode(m):
             return "*={0}''".format(encoding) + quote(to_native_str(m.group(1)))
 
+        # only non-ascii chars in protocol, status line and header names are %-encoded
+        self.protocol = quote(self.protocol, safe=self.ASCII)
+        self.statusline = quote(self.statusline, safe=self.ASCII)
+
         for index in range(len(self.headers) - 1, -1, -1):
             curr_name, curr_value = self.headers[index]
+            curr_name = quote(curr_name, safe=self.ASCII)
+            self.headers[index] = (curr_name, curr_value)
             try:
                 # test if header is ascii encodable, no action needed
                 curr_value.encode('ascii')
@@ -203,7 +211,8 @@ headers = {2})".format(self.protocol, self.statusline, self.headers)
                 else:
                 # %-encode value in ; name="value"
                     new_value = self.ENCODE_HEADER_RX.sub(do_encode, curr_value)
-                    if new_value == curr_value:
+                    # no value to encode, or other parts of header not ascii
+                    if new_value != quote(new_value, safe=self.ASCII):
                         new_value = quote(curr_value)
 
                 self.headers[index] = (curr_name, new_value)
-- 
2.43.0


From 4cae439e26e6f38a740162811984cc2024a20a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:59 +0000
Subject: [PATCH 12/31] fix: ArchiveIterator: an empty gzip member must not end
 the iteration early later on

---
 warcio/archiveiterator.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/archiveiterator.py b/warcio/archiveiterator.py
index 31a6942..474ec87 100644
--- a/warcio/archiveiterator.py
+++ b/warcio/archiveiterator.py
@@ -103,9 +103,9 @@ class ArchiveIterator(six.Iterator):
         """ iterate over each record
         """
         raise_invalid_gzip = False
-        empty_record = False
 
         while True:
+            empty_record = False
             try:
                 self.record = self._next_record(self.next_line)
                 if raise_invalid_gzip:
-- 
2.43.0


From cfc6e88f0133e675bf616060c0de49a05d517734 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:06 +0000
Subject: [PATCH 13/31] fix: ArcWarcRecordLoader: do not fail on http record
 type without target uri

---
 warcio/recordloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 475507b..23f560b 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -181,7 +181,7 @@ class ArcWarcRecordLoader(object):
             return None
 
         # only http:/https: uris can have http headers
-        if not uri.startswith(self.HTTP_SCHEMES):
+        if not uri or not uri.startswith(self.HTTP_SCHEMES):
             return None
 
         # request record: parse request
-- 
2.43.0


From e9d3bbc0a8f2ddca59008d3bef10cc759a051866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:13 +0000
Subject: [PATCH 14/31] fix: ARCHeadersParser: count the filedesc version block
 in bytes

---
 warcio/recordloader.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 23f560b..812998e 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -299,8 +299,9 @@ class ARCHeadersParser(object):
 
         # if arc header, consume next two lines
         if headerline.startswith('filedesc://'):
-            version = StatusAndHeadersParser.decode_header(stream.readline())  # skip version
-            spec = StatusAndHeadersParser.decode_header(stream.readline())  # skip header spec, use preset one
+            # length is in bytes, so don't decode
+            version = stream.readline()  # skip version
+            spec = stream.readline()  # skip header spec, use preset one
             total_read += len(version)
             total_read += len(spec)
 
-- 
2.43.0


From 1b997a64c9cac8f6b0d9a8b86dce8af8085714fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 15/31] fix: ArcWarcRecordLoader: no payload digest check if
 http headers are not parsed

With no_record_parse=True, the payload digest of http records was compared
with the digest of the whole block, and always failed.
---
 warcio/recordloader.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 812998e..8e49c55 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -148,7 +148,8 @@ class ArcWarcRecordLoader(object):
         if not http_headers and ensure_http_headers:
             http_headers = self.default_http_headers(length, content_type)
 
-        if is_verifying:
+        # payload position not known if http headers were not parsed
+        if is_verifying and not (no_record_parse and rec_type in self.HTTP_RECORDS):
             stream.begin_payload()
 
         return ArcWarcRecord(the_format, rec_type,
-- 
2.43.0


From 3de5116d1c0c6e5b23b456f6734a05e5ea1e56c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:26 +0000
Subject: [PATCH 16/31] fix: ArcWarcRecordLoader: set payload length with
 default http headers

---
 warcio/recordloader.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 8e49c55..ab7d2e9 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -147,6 +147,8 @@ class ArcWarcRecordLoader(object):
         # generate validate http headers (eg. for replay)
         if not http_headers and ensure_http_headers:
             http_headers = self.default_http_headers(length, content_type)
+            if length is not None:
+                payload_length = length
 
         # payload position not known if http headers were not parsed
         if is_verifying and not (no_record_parse and rec_type in self.HTTP_RECORDS):
-- 
2.43.0


From 2f296ec1b94a96fa6831f3453090ce952a019e1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:33 +0000
Subject: [PATCH 17/31] fix: BaseWARCWriter: write the block of a revisit
 record without http headers

---
 warcio/warcwriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index 6fb71be..85197f0 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -67,7 +67,7 @@ class BaseWARCWriter(RecordBuilder):
             # ensure proper content type
             record.rec_headers.replace_header('Content-Type', record.content_type)
 
-        if record.rec_type == 'revisit':
+        if record.rec_type == 'revisit' and record.http_headers:
             http_headers_only = True
         else:
             http_headers_only = False
-- 
2.43.0


From 9bbe01fcbb26e83adb940284df51b45879f55da8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:40 +0000
Subject: [PATCH 18/31] fix: capture_http: record only the bytes read by
 readinto

---
 warcio/capture_http.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index d83cb27..2baf377 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -53,7 +53,7 @@ class RecordingStream(object):
     # Used in PY3 Only
     def readinto(self, buff):  #pragma: no cover
         res = self.fp.readinto(buff)
-        self.recorder.write_response(buff)
+        self.recorder.write_response(memoryview(buff)[:res or 0])
         return res
 
     def readline(self, maxlen=-1):
-- 
2.43.0


From e143bfa52a70b945c7000725d1e0a7ed7cb5e22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:37 +0000
Subject: [PATCH 19/31] fix: keep blank first line of http records when writing
 or extracting

If the block of an http record starts with a blank line, that line is parsed
as empty http headers, but was then left out of the written record, while
still counted in the Content-Length.
---
 warcio/extractor.py     |  2 +-
 warcio/recordbuilder.py |  4 ++--
 warcio/recordloader.py  |  4 ++--
 warcio/warcwriter.py    | 13 +++++--------
 4 files changed, 10 insertions(+), 13 deletions(-)

diff --git a/warcio/extractor.py b/warcio/extractor.py
index 9d37e4f..c849815 100644
--- a/warcio/extractor.py
+++ b/warcio/extractor.py
@@ -31,7 +31,7 @@ class Extractor(object):
                     buf = stream.read(self.READ_SIZE)
             else:
                 stdout_raw.write(record.rec_headers.to_bytes())
-                if record.http_headers:
+                if record.http_headers is not None:
                     stdout_raw.write(record.http_headers.to_bytes())
                 if not headers_only:
                     buf = record.raw_stream.read(self.READ_SIZE)
diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 081b5b1..96a5e63 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -92,7 +92,7 @@ class RecordBuilder(object):
         if payload and not http_headers:
             loader = ArcWarcRecordLoader()
             http_headers = loader.load_http_headers(record_type, uri, payload, length)
-            if http_headers and length is not None:
+            if http_headers is not None and length is not None:
                 length -= payload.tell()
 
         if not payload:
@@ -183,7 +183,7 @@ class RecordBuilder(object):
             pos = 0
             temp_file = self._create_temp_file()
 
-        if block_digester and record.http_headers:
+        if block_digester and record.http_headers is not None:
             if not record.http_headers.headers_buff:
                 record.http_headers.compute_headers_buffer(self.header_filter)
             block_digester.update(record.http_headers.headers_buff)
diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index ab7d2e9..4e6914d 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -141,13 +141,13 @@ class ArcWarcRecordLoader(object):
         if not no_record_parse:
             start = stream.tell()
             http_headers = self.load_http_headers(rec_type, uri, stream, length)
-            if length and http_headers:
+            if length and http_headers is not None:
                 payload_length = length - (stream.tell() - start)
 
         # generate validate http headers (eg. for replay)
         if not http_headers and ensure_http_headers:
             http_headers = self.default_http_headers(length, content_type)
-            if length is not None:
+            if length is not None and payload_length < 0:
                 payload_length = length
 
         # payload position not known if http headers were not parsed
diff --git a/warcio/warcwriter.py b/warcio/warcwriter.py
index 85197f0..436b0db 100644
--- a/warcio/warcwriter.py
+++ b/warcio/warcwriter.py
@@ -42,7 +42,7 @@ class BaseWARCWriter(RecordBuilder):
         if self.gzip:
             out = GzippingWrapper(out)
 
-        if record.http_headers:
+        if record.http_headers is not None:
             record.http_headers.compute_headers_buffer(self.header_filter)
 
         # Content-Length is None/unknown
@@ -67,17 +67,14 @@ class BaseWARCWriter(RecordBuilder):
             # ensure proper content type
             record.rec_headers.replace_header('Content-Type', record.content_type)
 
-        if record.rec_type == 'revisit' and record.http_headers:
+        if record.rec_type == 'revisit' and record.http_headers is not None:
             http_headers_only = True
         else:
             http_headers_only = False
 
         # compute Content-Length
-        if record.http_headers and record.payload_length >= 0:
-            actual_len = 0
-
-            if record.http_headers:
-                actual_len = len(record.http_headers.headers_buff)
+        if record.http_headers is not None and record.payload_length >= 0:
+            actual_len = len(record.http_headers.headers_buff)
 
             if not http_headers_only:
                 actual_len += record.payload_length
@@ -91,7 +88,7 @@ class BaseWARCWriter(RecordBuilder):
         out.write(record.rec_headers.to_bytes(encoding='utf-8'))
 
         # write headers buffer, if any
-        if record.http_headers:
+        if record.http_headers is not None:
             out.write(record.http_headers.headers_buff)
 
         if not http_headers_only:
-- 
2.43.0


From f783febb321ec18de91bfacc906fed901a446ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:48 +0000
Subject: [PATCH 20/31] fix: digest check: md5 in hex, unpadded base32/64 and
 malformed digests

Correct md5 digests in base16, and unpadded ones in base32 or base64, were
reported as failed. A digest which is not valid in any encoding ended the
iteration with a binascii.Error instead of being reported.
---
 warcio/digestverifyingreader.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index 985a4ed..f7f8975 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -124,7 +124,9 @@ def _compare_digest_rfc_3548(digester, digest):
     our_algo, our_value = _parse_digest(digester_b32)
     warc_algo, warc_value = _parse_digest(digest)
 
-    warc_b32 = _to_b32(len(our_value), warc_value)
+    # padding is optional, and would make the length ambiguous
+    our_value = our_value.rstrip('=')
+    warc_b32 = _to_b32(len(our_value), warc_value.rstrip('='))
 
     if our_value == warc_b32:
         return True
@@ -134,18 +136,22 @@ def _compare_digest_rfc_3548(digester, digest):
 
 def _to_b32(length, value):
     '''
-    Convert value to base 32, given that it's supposed to have the same
-    length as the digest we're about to compare it to
+    Convert unpadded value to unpadded base 32, given that it's supposed to
+    have the same length as the digest we're about to compare it to.
+    Return None if value can not be a digest.
     '''
     if len(value) == length:
         return value  # casefold needed here? -- rfc recommends not allowing
 
-    if len(value) > length:
-        binary = base64.b16decode(value, casefold=True)
-    else:
-        binary = _b64_wrapper(value)
+    try:
+        if len(value) > length:
+            binary = base64.b16decode(value, casefold=True)
+        else:
+            binary = _b64_wrapper(value + '=' * (-len(value) % 4))
+    except ValueError:
+        return None
 
-    return to_native_str(base64.b32encode(binary), encoding='ascii')
+    return to_native_str(base64.b32encode(binary), encoding='ascii').rstrip('=')
 
 
 base64_url_filename_safe_alt = b'-_'
-- 
2.43.0


From b332419e93f8bc5ace13b4be19e4bf97f2ced04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:56 +0000
Subject: [PATCH 21/31] fix: DigestVerifyingReader: check digests of empty and
 cut off blocks

The block digest of a zero length block was never checked, and neither were
the digests of a block which ends before its Content-Length.
---
 warcio/digestverifyingreader.py | 33 +++++++++++++++++++++------------
 1 file changed, 21 insertions(+), 12 deletions(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index f7f8975..629a5f3 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -59,6 +59,7 @@ class DigestVerifyingReader(LimitReader):
         self.payload_digester = None
         self.payload_digester_obj = None
         self.block_digester = None
+        self.ended = False
 
         if block_digest:
             try:
@@ -77,7 +78,10 @@ class DigestVerifyingReader(LimitReader):
 
     def begin_payload(self):
         self.payload_digester = self.payload_digester_obj
-        if self.limit == 0:
+        if self.limit == 0 and not self.ended:
+            # empty block, nothing will be read
+            self._check_digests()
+        elif self.ended:
             check = _compare_digest_rfc_3548(self.payload_digester, self.payload_digest)
             if check is False:
                 self.digest_checker.problem('payload digest failed: {}'.format(self.payload_digest))
@@ -93,20 +97,25 @@ class DigestVerifyingReader(LimitReader):
         if self.block_digester:
             self.block_digester.update(buff)
 
-        if self.limit == 0:
-            check = _compare_digest_rfc_3548(self.block_digester, self.block_digest)
-            if check is False:
-                self.digest_checker.problem('block digest failed: {}'.format(self.block_digest))
-            elif check is True and self.digest_checker.passed is not False:
-                self.digest_checker.passed = True
-            check = _compare_digest_rfc_3548(self.payload_digester, self.payload_digest)
-            if check is False:
-                self.digest_checker.problem('payload digest failed {}'.format(self.payload_digest))
-            elif check is True and self.digest_checker.passed is not False:
-                self.digest_checker.passed = True
+        # all data read, or stream ended before the limit
+        if (self.limit == 0 or not buff) and not self.ended:
+            self._check_digests()
 
         return buff
 
+    def _check_digests(self):
+        self.ended = True
+        check = _compare_digest_rfc_3548(self.block_digester, self.block_digest)
+        if check is False:
+            self.digest_checker.problem('block digest failed: {}'.format(self.block_digest))
+        elif check is True and self.digest_checker.passed is not False:
+            self.digest_checker.passed = True
+        check = _compare_digest_rfc_3548(self.payload_digester, self.payload_digest)
+        if check is False:
+            self.digest_checker.problem('payload digest failed {}'.format(self.payload_digest))
+        elif check is True and self.digest_checker.passed is not False:
+            self.digest_checker.passed = True
+
 
 def _compare_digest_rfc_3548(digester, digest):
     '''
-- 
2.43.0


From 403c63c9dfc3444ffba9faf722fb8a7c392e6389 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:16 +0000
Subject: [PATCH 22/31] fix: capture_http: don't use proxy of previous requests

WARC-Proxy-Host and the host of a proxy tunnel were also used for later
requests of the same capture on other connections, even without any proxy,
so these were recorded with the wrong url.
---
 warcio/capture_http.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/warcio/capture_http.py b/warcio/capture_http.py
index 2baf377..40d02b4 100644
--- a/warcio/capture_http.py
+++ b/warcio/capture_http.py
@@ -81,6 +81,9 @@ class RecordingHTTPResponse(httplib.HTTPResponse):
 class RecordingHTTPConnection(httplib.HTTPConnection):
     local = threading.local()
 
+    # host, port and WARC-Proxy-Host if connected via a proxy tunnel
+    tunnel = (None, None, None)
+
     def __init__(self, *args, **kwargs):
         orig_connection.__init__(self, *args, **kwargs)
         if hasattr(self.local, 'recorder'):
@@ -121,11 +124,16 @@ class RecordingHTTPConnection(httplib.HTTPConnection):
         if self.recorder:
             self.recorder.start_tunnel()
 
-        return orig_connection._tunnel(self, *args, **kwargs)
+        res = orig_connection._tunnel(self, *args, **kwargs)
+
+        if self.recorder:
+            self.tunnel = self.recorder.get_tunnel()
+
+        return res
 
     def putrequest(self, *args, **kwargs):
         if self.recorder:
-            self.recorder.start()
+            self.recorder.start(self.tunnel)
         return orig_connection.putrequest(self, *args, **kwargs)
 
 
@@ -149,7 +157,17 @@ class RequestRecorder(object):
         self.started_req = False
         self.first_line_read = False
 
-    def start(self):
+    def get_tunnel(self):
+        return (self.connect_host, self.connect_port,
+                self.warc_headers.get('WARC-Proxy-Host'))
+
+    def start(self, tunnel=(None, None, None)):
+        # nothing from previous requests, which may be for another connection
+        self.connect_host, self.connect_port, proxy_host = tunnel
+        self.warc_headers = {}
+        if proxy_host:
+            self.warc_headers['WARC-Proxy-Host'] = proxy_host
+
         self.request_out = self._create_buffer()
         self.response_out = self._create_buffer()
         self.url = None
-- 
2.43.0


From 78c3c8d1993e45b764601eb501f0d4a7cce457d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:27 +0000
Subject: [PATCH 23/31] fix: content_stream: Transfer-Encoding is
 case-insensitive

---
 warcio/recordloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 4e6914d..075575d 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -36,7 +36,7 @@ class ArcWarcRecord(object):
             if encoding not in BufferedReader.get_supported_decompressors():
                 encoding = None
 
-        if self.http_headers.get_header('transfer-encoding') == 'chunked':
+        if self.http_headers.get_header('transfer-encoding', '').lower() == 'chunked':
             return ChunkedDataReader(self.raw_stream, decomp_type=encoding)
         elif encoding:
             return BufferedReader(self.raw_stream, decomp_type=encoding)
-- 
2.43.0


From 478fcd9081859f09accacb6080ad1ba9fde688f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:34 +0000
Subject: [PATCH 24/31] fix: ArcWarcRecordLoader: do not drop http record cut
 off before its block

The EOFError of the http header parser ended the iteration as if there was
no such record, and failed the creation of an http record with an empty
payload of unknown length.
---
 warcio/recordloader.py | 21 ++++++++++-----------
 1 file changed, 10 insertions(+), 11 deletions(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index 075575d..c21945d 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -187,20 +187,19 @@ class ArcWarcRecordLoader(object):
         if not uri or not uri.startswith(self.HTTP_SCHEMES):
             return None
 
-        # request record: parse request
-        if rec_type == 'request':
-            return self.http_req_parser.parse(stream)
+        try:
+            # request record: parse request
+            if rec_type == 'request':
+                return self.http_req_parser.parse(stream)
 
-        elif rec_type == 'revisit':
-            try:
+            # response record or non-empty revisit: parse HTTP status and headers!
+            else:
                 return self.http_parser.parse(stream)
-            except EOFError:
-                # empty revisit with no http headers, is ok!
-                return None
 
-        # response record or non-empty revisit: parse HTTP status and headers!
-        else:
-            return self.http_parser.parse(stream)
+        except EOFError:
+            # empty revisit with no http headers, is ok!
+            # also, nothing at all to parse (record cut off, or unknown length)
+            return None
 
     def default_http_headers(self, length, content_type=None):
         headers = []
-- 
2.43.0


From b91b7c2d20fa3486699197a4357c7b5e38456a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:42 +0000
Subject: [PATCH 25/31] fix: ChunkedDataReader: no chunk length and line ends
 in cut off data

If the stream ended within a chunk length line, or within the line end after
the data of a chunk, the length line was returned as part of the data.
---
 warcio/bufferedreaders.py | 29 ++++++++++++++++++++++++++---
 1 file changed, 26 insertions(+), 3 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index 26dbd56..e72cbbb 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -1,4 +1,5 @@
 from io import BytesIO
+import re
 import zlib
 import sys
 
@@ -294,10 +295,13 @@ class ChunkedDataReader(BufferedReader):
     If at any point the chunked header is not available, the stream is
     assumed to not be chunked and no more dechunking occurs.
     """
+    PARTIAL_LENGTH_RX = re.compile(br'[0-9a-fA-F]+(;[^\n]*)?\r?\Z')
+
     def __init__(self, stream, raise_exceptions=False, **kwargs):
         super(ChunkedDataReader, self).__init__(stream, **kwargs)
         self.all_chunks_read = False
         self.not_chunked = False
+        self.chunk_read = False
 
         # if False, we'll use best-guess fallback for parse errors
         self.raise_chunked_data_exceptions = raise_exceptions
@@ -340,6 +344,11 @@ class ChunkedDataReader(BufferedReader):
             # sanity check chunk size
             assert(0 <= chunk_size <= 2**31)
         except (ValueError, AssertionError):
+            if self._is_cut_off(length_header):
+                self.all_chunks_read = True
+                self._process_read(b'')
+                return
+
             raise ChunkedDataException(b"Couldn't decode length header " +
                                        length_header)
 
@@ -354,13 +363,14 @@ class ChunkedDataReader(BufferedReader):
 
             # if not raising, also ok if cut off before the final \r\n
             if line != b'\r\n' and (self.raise_chunked_data_exceptions or
-                                    not b'\r\n'.startswith(line)):
+                                    line.endswith(b'\n')):
                 raise ChunkedDataException(b"Incorrect \r\n after length header of 0",
                                            final_data + line)
             self.all_chunks_read = True
             self._process_read(b'')
             return
 
+        self.chunk_read = True
         data_len = 0
         data = b''
 
@@ -385,14 +395,27 @@ class ChunkedDataReader(BufferedReader):
         # if we successfully read a block without running out,
         # it should end in \r\n
         if not self.all_chunks_read:
-            clrf = self.stream.read(2)
-            if clrf != b'\r\n':
+            # unlike read(), readline() is only short at the end of the stream
+            clrf = self.stream.readline(2)
+            if clrf in (b'', b'\r') and not self.raise_chunked_data_exceptions:
+                # cut off after the data
+                self.all_chunks_read = True
+            elif clrf != b'\r\n':
                 raise ChunkedDataException(b"Chunk terminator not found.",
                                            data)
 
         # hand to base class for further processing
         self._process_read(data)
 
+    def _is_cut_off(self, length_header):
+        """
+        Return true if length header, after a previous chunk, is
+        incomplete only because the stream ends there
+        """
+        return (self.chunk_read and not self.raise_chunked_data_exceptions and
+                len(length_header) < 64 and
+                self.PARTIAL_LENGTH_RX.match(length_header) is not None)
+
 
 #=================================================================
 try_brotli_init()
-- 
2.43.0


From 9827b29bd06b5cfbb1b7711b2d625d307a93217e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 26/31] fix: BufferedReader: read_all_members must not stop at
 or lose data after an empty member

---
 warcio/bufferedreaders.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index e72cbbb..e136e89 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -107,21 +107,25 @@ class BufferedReader(object):
 
         block_size = block_size or self.block_size
 
-        if self.starting_data:
-            data = self.starting_data
-            self.starting_data = None
-        else:
-            data = self.stream.read(block_size)
-
+        data = self._read_raw(block_size)
         self._process_read(data)
 
         # if raw data is not empty and decompressor set, but
         # decompressed buff is empty, keep reading --
         # decompressor likely needs more data to decompress
-        while data and self.decompressor and not self.decompressor.unused_data and self.empty():
-            data = self.stream.read(block_size)
+        # (empty() may start the next member, so check it first)
+        while data and self.decompressor and self.empty() and not self.decompressor.unused_data:
+            data = self._read_raw(block_size)
             self._process_read(data)
 
+    def _read_raw(self, block_size):
+        if self.starting_data:
+            data = self.starting_data
+            self.starting_data = None
+            return data
+
+        return self.stream.read(block_size)
+
     def _process_read(self, data):
         # don't process if no raw data read
         if not data:
-- 
2.43.0


From 76cb387c1d3325f60a141e266d04737a730b6ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:58 +0000
Subject: [PATCH 27/31] fix: RecordBuilder: block digest of a revisit record
 must not include a payload that is not written

---
 warcio/recordbuilder.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/warcio/recordbuilder.py b/warcio/recordbuilder.py
index 96a5e63..51df8bf 100644
--- a/warcio/recordbuilder.py
+++ b/warcio/recordbuilder.py
@@ -188,8 +188,11 @@ class RecordBuilder(object):
                 record.http_headers.compute_headers_buffer(self.header_filter)
             block_digester.update(record.http_headers.headers_buff)
 
+        # with http headers, only these are the block of a revisit record
+        headers_only = (record.rec_type == 'revisit' and record.http_headers is not None)
+
         for buf in self._iter_stream(record.raw_stream):
-            if block_digester:
+            if block_digester and not headers_only:
                 block_digester.update(buf)
 
             if payload_digester:
-- 
2.43.0


From 7768386615e12dd18fd9d9dc944e37c811c8df31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 28/31] fix: ArcWarcRecordLoader: check digests of empty blocks
 also if http headers are not parsed

---
 warcio/recordloader.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/warcio/recordloader.py b/warcio/recordloader.py
index c21945d..2799a76 100644
--- a/warcio/recordloader.py
+++ b/warcio/recordloader.py
@@ -151,7 +151,7 @@ class ArcWarcRecordLoader(object):
                 payload_length = length
 
         # payload position not known if http headers were not parsed
-        if is_verifying and not (no_record_parse and rec_type in self.HTTP_RECORDS):
+        if is_verifying and not (no_record_parse and length and rec_type in self.HTTP_RECORDS):
             stream.begin_payload()
 
         return ArcWarcRecord(the_format, rec_type,
-- 
2.43.0


From 8efb989213ea177fddf20a2fd4c941337eb16158 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:26 +0000
Subject: [PATCH 29/31] fix: digest check: characters outside of the base64
 alphabet are not ignored

---
 warcio/digestverifyingreader.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/warcio/digestverifyingreader.py b/warcio/digestverifyingreader.py
index 629a5f3..0a70c89 100644
--- a/warcio/digestverifyingreader.py
+++ b/warcio/digestverifyingreader.py
@@ -168,9 +168,17 @@ base64_url_filename_safe_alt = b'-_'
 
 def _b64_wrapper(value):
     if '-' in value or '_' in value:
-        return base64.b64decode(value, altchars=base64_url_filename_safe_alt)
+        binary = base64.b64decode(value, altchars=base64_url_filename_safe_alt)
+        encoded = base64.b64encode(binary, altchars=base64_url_filename_safe_alt)
     else:
-        return base64.b64decode(value)
+        binary = base64.b64decode(value)
+        encoded = base64.b64encode(binary)
+
+    # decoding ignores characters that are not in the alphabet
+    if to_native_str(encoded, encoding='ascii') != value:
+        raise ValueError('not base64: ' + value)
+
+    return binary
 
 
 def _parse_digest(digest):
-- 
2.43.0


From 588a58103ec7f96ec2de0105a4da815e535f81c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:22 +0000
Subject: [PATCH 30/31] fix: ArchiveIterator: detect non-chunked gzip member
 also if another member follows

---
 warcio/archiveiterator.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/warcio/archiveiterator.py b/warcio/archiveiterator.py
index 474ec87..91f8951 100644
--- a/warcio/archiveiterator.py
+++ b/warcio/archiveiterator.py
@@ -119,8 +119,12 @@ class ArchiveIterator(six.Iterator):
             self.read_to_end()
 
             if self.reader.decompressor:
+                # if next record is in the same gzip member, raise below
+                if self.next_line:
+                    raise_invalid_gzip = True
+
                 # if another gzip member, continue
-                if self.reader.read_next_member():
+                elif self.reader.read_next_member():
                     continue
 
                 # if empty record, then we're done
-- 
2.43.0


From d266668cf528f2703894ca4822da7b7d158b0e0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:49 +0000
Subject: [PATCH 31/31] fix: raw deflate data was not recognized if the type
 was not given in lower case

---
 warcio/bufferedreaders.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/warcio/bufferedreaders.py b/warcio/bufferedreaders.py
index e136e89..5c49baa 100644
--- a/warcio/bufferedreaders.py
+++ b/warcio/bufferedreaders.py
@@ -88,8 +88,8 @@ class BufferedReader(object):
         self.undecoded = b''
         if decomp_type:
             try:
-                self.decomp_type = decomp_type
-                self.decompressor = self.DECOMPRESSORS[decomp_type.lower()]()
+                self.decomp_type = decomp_type.lower()
+                self.decompressor = self.DECOMPRESSORS[self.decomp_type]()
             except KeyError:
                 raise Exception('Decompression type not supported: ' +
                                 decomp_type)
-- 
2.43.0

