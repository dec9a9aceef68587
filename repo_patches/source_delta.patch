From 13aee57a767a153a2faf08672b9e545fbc99e518 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:48 +0000
Subject: [PATCH 01/28] fix: use locale.format_string, locale.format was
 removed in Python 3.12

---
 lib/stream.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/stream.py b/lib/stream.py
index f5a7681..5493838 100755
--- a/lib/stream.py
+++ b/lib/stream.py
@@ -41,7 +41,7 @@ class Stream(object):
     for proc in self.procs:
       ttl_size = sum(self.sizes[proc])
       ttl_time = sum(self.times[proc])
-      pretty_size = locale.format("%13d", ttl_size, grouping=True)
+      pretty_size = locale.format_string("%13d", ttl_size, grouping=True)
       ratio = 1.0 * ttl_size / baseline_size
       try:
         std = meanstdv(self.ratios[proc])[1]
-- 
2.43.0


From 962c94c7147e4d2021539ad28c812da8dd7a7d71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:48 +0000
Subject: [PATCH 02/28] fix: report why a HAR file cannot be parsed instead of
 raising TypeError

---
 lib/harfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index 3bac9b7..a66daf6 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -22,7 +22,7 @@ def read_har_file(filename):
     har = json.loads(fhandle.read())
   except Exception as oops:
     sys.stderr.write("Unable to parse %s\n\n" % filename)
-    sys.stderr.write(oops)
+    sys.stderr.write("%s\n" % oops)
     sys.exit(1)
   finally: 
     fhandle.close()
-- 
2.43.0


From 449f05ee996e189f8d6162e36560b3e3541ddd57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:23:48 +0000
Subject: [PATCH 03/28] fix: keep the request's own host header, and derive a
 missing one from the URL authority

---
 lib/harfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index a66daf6..2fa546e 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -50,8 +50,8 @@ def har2hdrs(har):
       headers[":path"] += "?%s" % url.query
     headers[":scheme"] = url.scheme.lower()
     headers[":version"] = request["httpVersion"]
-    if not ":host" in request_headers:
-      headers[":host"] = re.sub("^[^:]*://([^/]*)/.*$", "\\1", request["url"])
+    if not ":host" in headers:
+      headers[":host"] = url.netloc
     request_headers.append(headers)
 
     response = entry["response"]
-- 
2.43.0


From ed649f1c43492dd1d47e006261513475909ead06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:06 +0000
Subject: [PATCH 04/28] fix: building the TOTAL stream no longer alters or
 renames a stream

---
 compare_compressors.py | 5 ++++-
 lib/stream.py          | 3 +--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/compare_compressors.py b/compare_compressors.py
index db38e0b..70ef77b 100755
--- a/compare_compressors.py
+++ b/compare_compressors.py
@@ -21,6 +21,7 @@ from functools import reduce
 
 from lib.harfile import read_har_file
 from lib.processors import Processors
+from lib.stream import Stream
 
 
 class CompressionTester(object):
@@ -59,7 +60,9 @@ class CompressionTester(object):
         session.print_summary(self.output, self.options.baseline)
     self.processors.done()
     for msg_type in self.msg_types:
-      ttl_stream = reduce(operator.add, [s for s in sessions if s.msg_type == msg_type])
+      ttl_stream = reduce(operator.add,
+                          [s for s in sessions if s.msg_type == msg_type],
+                          Stream('', [], msg_type, sessions[0].procs))
       ttl_stream.name = "TOTAL"
       ttl_stream.print_header(self.output)
       ttl_stream.print_summary(self.output, self.options.baseline)
diff --git a/lib/stream.py b/lib/stream.py
index 5493838..c8c3aea 100755
--- a/lib/stream.py
+++ b/lib/stream.py
@@ -72,8 +72,7 @@ class Stream(object):
 
   def __add__(self, other):
     assert self.msg_type == other.msg_type
-    new = Stream('', self.messages, self.msg_type, self.procs)
-    new.messages.extend(other.messages) # NB: not great for memory
+    new = Stream('', self.messages + other.messages, self.msg_type, self.procs)
     new.sizes = merge_dols(self.sizes, other.sizes)
     new.ratios = merge_dols(self.ratios, other.ratios)
     new.times = merge_dols(self.times, other.times)
-- 
2.43.0


From be9f87f25b724cb91bf9b2f0c947b34e777a384a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:06 +0000
Subject: [PATCH 05/28] fix: names in the connection header are
 case-insensitive

---
 lib/processors.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/processors.py b/lib/processors.py
index 1af25d0..1ee36a3 100755
--- a/lib/processors.py
+++ b/lib/processors.py
@@ -87,7 +87,8 @@ class Processors(object):
     new_hdrs = {}
     ignore_hdrs = [':status-text', ':version', 'keep-alive', 'connection']
     if 'connection' in hdrs:
-      ignore_hdrs.extend([x.strip(' ') for x in hdrs['connection'].split(',')])
+      ignore_hdrs.extend([x.strip(' ').lower()
+                          for x in hdrs['connection'].split(',')])
 
     for k,v in hdrs.items():
       if k in ignore_hdrs:
-- 
2.43.0


From 81c5a019b6a260372a4296f5e7a73bc878792661 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:07 +0000
Subject: [PATCH 06/28] fix: http1_gzip, http1_huffman and the spdy3 dictionary
 compress bytes, not str

---
 compressor/http1_gzip/__init__.py    | 4 ++--
 compressor/http1_huffman/__init__.py | 4 ++--
 compressor/spdy_dictionary.py        | 4 ++--
 3 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/compressor/http1_gzip/__init__.py b/compressor/http1_gzip/__init__.py
index 825eeed..4ec9c23 100644
--- a/compressor/http1_gzip/__init__.py
+++ b/compressor/http1_gzip/__init__.py
@@ -14,8 +14,8 @@ class Processor(BaseProcessor):
     self.compressor.flush(zlib.Z_SYNC_FLUSH)
 
   def compress(self, in_headers, host):
-    http1_msg = format_http1(in_headers)
-    return ''.join([
+    http1_msg = format_http1(in_headers).encode('utf-8')
+    return b''.join([
                    self.compressor.compress(http1_msg),
                    self.compressor.flush(zlib.Z_SYNC_FLUSH)
                   ])
diff --git a/compressor/http1_huffman/__init__.py b/compressor/http1_huffman/__init__.py
index 5f8b304..1e1ec06 100644
--- a/compressor/http1_huffman/__init__.py
+++ b/compressor/http1_huffman/__init__.py
@@ -14,8 +14,8 @@ class Processor(BaseProcessor):
     self.compressor.flush(zlib.Z_SYNC_FLUSH)
 
   def compress(self, in_headers, host):
-    http1_msg = format_http1(in_headers)
-    return ''.join([
+    http1_msg = format_http1(in_headers).encode('utf-8')
+    return b''.join([
                    self.compressor.compress(http1_msg),
                    self.compressor.flush(zlib.Z_SYNC_FLUSH)
                   ])
diff --git a/compressor/spdy_dictionary.py b/compressor/spdy_dictionary.py
index 0b16514..93fadda 100644
--- a/compressor/spdy_dictionary.py
+++ b/compressor/spdy_dictionary.py
@@ -3,7 +3,7 @@
 # Use of this source code is governed by a BSD-style license that can be
 # found in the LICENSE file.
 
-spdy_dict = ''.join(chr(x) for x in [
+spdy_dict = bytes(bytearray([
         0x00, 0x00, 0x00, 0x07, 0x6f, 0x70, 0x74, 0x69,   # - - - - o p t i
         0x6f, 0x6e, 0x73, 0x00, 0x00, 0x00, 0x04, 0x68,   # o n s - - - - h
         0x65, 0x61, 0x64, 0x00, 0x00, 0x00, 0x04, 0x70,   # e a d - - - - p
@@ -182,4 +182,4 @@ spdy_dict = ''.join(chr(x) for x in [
         0x73, 0x6f, 0x2d, 0x38, 0x38, 0x35, 0x39, 0x2d,   # s o - 8 8 5 9 -
         0x31, 0x2c, 0x75, 0x74, 0x66, 0x2d, 0x2c, 0x2a,   # 1 - u t f - - -
         0x2c, 0x65, 0x6e, 0x71, 0x3d, 0x30, 0x2e          # - e n q - 0 -
-    ])
+    ]))
-- 
2.43.0


From 915e6e785804f78ddef6a8847e34d26b96a6578a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:07 +0000
Subject: [PATCH 07/28] fix: the fork codec writes bytes, flushes them and
 imports only what exists

---
 compressor/fork/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/compressor/fork/__init__.py b/compressor/fork/__init__.py
index eb8c636..730f630 100644
--- a/compressor/fork/__init__.py
+++ b/compressor/fork/__init__.py
@@ -7,7 +7,7 @@ import subprocess
 import struct
 import sys
 
-from .. import BaseProcessor, format_http1, strip_conn_headers
+from .. import BaseProcessor, format_http1
 
 class Processor(BaseProcessor):
   def __init__(self, options, is_request, params):
@@ -24,17 +24,18 @@ class Processor(BaseProcessor):
                                      stdin=subprocess.PIPE)
 
   def compress(self, in_headers, host):
-    http1_msg = format_http1(strip_conn_headers(in_headers))
-    self.process.stdin.write(http1_msg)
+    http1_msg = format_http1(in_headers)
+    self.process.stdin.write(http1_msg.encode('utf-8'))
+    self.process.stdin.flush()
     if self.delimit_binary:
       output = self.process.stdout.read(8)
       size = struct.unpack("q", output)[0]
       output = self.process.stdout.read(int(size))
     else:
-      output = ""
+      output = b""
       while True:
         line = self.process.stdout.readline()
-        if line.strip() == "":
+        if line.strip() == b"":
           break
         output += line
     return output
-- 
2.43.0


From f02e5bba877d2d5b8bc246cb050bf00d50a08612 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:40 +0000
Subject: [PATCH 08/28] fix: the sample external codec stops at end of input
 instead of answering it forever

---
 sample_exec_codec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/sample_exec_codec.py b/sample_exec_codec.py
index c890d71..dbc5ea4 100755
--- a/sample_exec_codec.py
+++ b/sample_exec_codec.py
@@ -13,6 +13,8 @@ def main():
       name = "%d" % os.getpid()
     while True:
       line = sys.stdin.readline()
+      if not line: # end of input
+        return
       if line.strip() == "":
         break
       headers.append(line)
-- 
2.43.0


From 66ae0d1370b7c27ad4239ab9b74be05efd5e4dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:24:58 +0000
Subject: [PATCH 09/28] fix: a URL without a path is a request for /

---
 lib/harfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/harfile.py b/lib/harfile.py
index 2fa546e..ae52479 100755
--- a/lib/harfile.py
+++ b/lib/harfile.py
@@ -45,7 +45,7 @@ def har2hdrs(har):
       continue
     headers = process_headers(request["headers"])
     headers[":method"] = request["method"].lower()
-    headers[":path"] = url.path
+    headers[":path"] = url.path or "/"
     if url.query:
       headers[":path"] += "?%s" % url.query
     headers[":scheme"] = url.scheme.lower()
-- 
2.43.0


From 6e6b379fbf47d6d216c90f9b92befc6b38be7f44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:13 +0000
Subject: [PATCH 10/28] fix: parse_http1 restores the host field of responses
 too

---
 compressor/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compressor/__init__.py b/compressor/__init__.py
index 0cc3f4f..7846068 100644
--- a/compressor/__init__.py
+++ b/compressor/__init__.py
@@ -101,11 +101,11 @@ def parse_http1(message, is_request, host='host'):
     out[':method'] = top_line[0]
     out[':path'] = top_line[1]
     out[':version'] = top_line[2].strip()
-    if host in out:
-      out[':host'] = out[host]
-      del out[host]
   else:
     out[':version'] = top_line[0]
     out[':status'] = top_line[1]
     out[':status-text'] = top_line[2].strip()
+  if host in out:
+    out[':host'] = out[host]
+    del out[host]
   return out
-- 
2.43.0


From e9e83afd09766a44bc519a42bfbd7eabae23e950 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:25:38 +0000
Subject: [PATCH 11/28] fix: http2 does not encode an evicted header that
 cannot be stored again forever

---
 compressor/http2/http2Codec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/http2/http2Codec.py b/compressor/http2/http2Codec.py
index 736200d..7845550 100644
--- a/compressor/http2/http2Codec.py
+++ b/compressor/http2/http2Codec.py
@@ -430,7 +430,7 @@ class HTTP2Codec(object):
           encoded_headers = True
         else:
           remaining_headers.append(header)
-      
+      referenced_headers = remaining_headers
     
     # Return frame
     frame = pack("!HBBL", len(self.encoded_stream), 0, 0, 0)
-- 
2.43.0


From 9817e2a1e4bacf80332c607fd3bab49ece8e7bb5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:08 +0000
Subject: [PATCH 12/28] fix: headerdiff tells headers apart whose name and
 value only concatenate to the same text

---
 compressor/headerdiff/headerDiffCodec.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/compressor/headerdiff/headerDiffCodec.py b/compressor/headerdiff/headerDiffCodec.py
index 565633d..6cb9d65 100644
--- a/compressor/headerdiff/headerDiffCodec.py
+++ b/compressor/headerdiff/headerDiffCodec.py
@@ -67,7 +67,7 @@ class IndexedHeader(object):
     self.value = value
     self.index = index
     # Full is used by encoder as a key to find an indexed header
-    self.full = name + value
+    self.full = (name, value)
     # Age is used by encoder when determining header representation
     self.age = 0
     # Number of usage as a reference for a delta-encoding
@@ -363,7 +363,7 @@ class HeaderDiffCodec(object):
     for he in headerTuples:
       headerName = he.name
       headerValue = he.value
-      headerFull = headerName + headerValue
+      headerFull = (headerName, headerValue)
       # Determine representation
       hr = self.determineRepresentation(
         headerName,
@@ -472,7 +472,7 @@ class HeaderDiffCodec(object):
     # Default encoding: literal without indexing
     hr = HeaderRepresentation()
     # Check possibility of indexed representation
-    headerFull = headerName + headerValue
+    headerFull = (headerName, headerValue)
     if headerFull in self.headersTableEncoder:
       hr.representation = INDEXED_REPRESENTATION
       hr.referenceHeader = self.headersTableEncoder[headerFull]
-- 
2.43.0


From 9bff8b35d947dea35e8ef3571dff3cfa82a67ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:26:08 +0000
Subject: [PATCH 13/28] fix: headerdiff inflates the frame payload, not the
 frame header

---
 compressor/headerdiff/headerDiffCodec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/compressor/headerdiff/headerDiffCodec.py b/compressor/headerdiff/headerDiffCodec.py
index 6cb9d65..2cd29ff 100644
--- a/compressor/headerdiff/headerDiffCodec.py
+++ b/compressor/headerdiff/headerDiffCodec.py
@@ -176,7 +176,7 @@ class HeaderDiffCodec(object):
     self.decodedStreamIndex = 0
     # If Deflate was used, apply Inflate
     if self.windowSize != None:
-      self.decodedStream = self.decomp.decompress(stream)
+      self.decodedStream = self.decomp.decompress(self.decodedStream)
     # Initialize variables
     headers = [] # List of decoded headers
     # Decode number of headers
-- 
2.43.0


From 7a199c922740ce7a667fe4baebac91515529d7af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:21 +0000
Subject: [PATCH 14/28] fix: IDStore can wrap around (misspelt attribute)

---
 compressor/bohe/common_utils.py        | 2 +-
 compressor/delta2_bohe/common_utils.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/bohe/common_utils.py b/compressor/bohe/common_utils.py
index 8b35243..c222be4 100644
--- a/compressor/bohe/common_utils.py
+++ b/compressor/bohe/common_utils.py
@@ -57,7 +57,7 @@ class IDStore(object):
   def __init__(self, max_id):
     self.ids = set()
     self.next_idx = 0
-    self.mininum_id = 0
+    self.minimum_id = 0
     self.maximum_id = max_id
     if self.maximum_id is None:
       print "need a max id"
diff --git a/compressor/delta2_bohe/common_utils.py b/compressor/delta2_bohe/common_utils.py
index 8b35243..c222be4 100644
--- a/compressor/delta2_bohe/common_utils.py
+++ b/compressor/delta2_bohe/common_utils.py
@@ -57,7 +57,7 @@ class IDStore(object):
   def __init__(self, max_id):
     self.ids = set()
     self.next_idx = 0
-    self.mininum_id = 0
+    self.minimum_id = 0
     self.maximum_id = max_id
     if self.maximum_id is None:
       print "need a max id"
-- 
2.43.0


From 7556691b7cea6afb299f7dfca6b4493d63b3a6d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:21 +0000
Subject: [PATCH 15/28] fix: common_utils.MakeReadableString uses the string
 module it never imported

---
 compressor/bohe/common_utils.py        | 2 +-
 compressor/delta/common_utils.py       | 2 +-
 compressor/delta2_bohe/common_utils.py | 2 +-
 compressor/delta_bohe/common_utils.py  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/compressor/bohe/common_utils.py b/compressor/bohe/common_utils.py
index c222be4..f565a58 100644
--- a/compressor/bohe/common_utils.py
+++ b/compressor/bohe/common_utils.py
@@ -2,7 +2,7 @@
 # Use of this source code is governed by a BSD-style license that can be
 # found in the LICENSE file.
 
-
+import string
 
 def ListToStr(val):
   """ Takes a list of ints and makes it into a string """
diff --git a/compressor/delta/common_utils.py b/compressor/delta/common_utils.py
index c222be4..f565a58 100644
--- a/compressor/delta/common_utils.py
+++ b/compressor/delta/common_utils.py
@@ -2,7 +2,7 @@
 # Use of this source code is governed by a BSD-style license that can be
 # found in the LICENSE file.
 
-
+import string
 
 def ListToStr(val):
   """ Takes a list of ints and makes it into a string """
diff --git a/compressor/delta2_bohe/common_utils.py b/compressor/delta2_bohe/common_utils.py
index c222be4..f565a58 100644
--- a/compressor/delta2_bohe/common_utils.py
+++ b/compressor/delta2_bohe/common_utils.py
@@ -2,7 +2,7 @@
 # Use of this source code is governed by a BSD-style license that can be
 # found in the LICENSE file.
 
-
+import string
 
 def ListToStr(val):
   """ Takes a list of ints and makes it into a string """
diff --git a/compressor/delta_bohe/common_utils.py b/compressor/delta_bohe/common_utils.py
index 57255ce..41bfd43 100644
--- a/compressor/delta_bohe/common_utils.py
+++ b/compressor/delta_bohe/common_utils.py
@@ -2,7 +2,7 @@
 # Use of this source code is governed by a BSD-style license that can be
 # found in the LICENSE file.
 
-
+import string
 
 def ListToStr(val):
   """ Takes a list of ints and makes it into a string """
-- 
2.43.0


From d02e41b5a36e1074714ec278815149d85806118b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:21 +0000
Subject: [PATCH 16/28] fix: bohe flags values that really are multi-valued
 (NUL-joined)

---
 compressor/bohe/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/bohe/__init__.py b/compressor/bohe/__init__.py
index 33af40e..648eb6c 100644
--- a/compressor/bohe/__init__.py
+++ b/compressor/bohe/__init__.py
@@ -43,7 +43,7 @@ class Processor(BaseProcessor):
           data.StoreBit(1)
           dohuff = False
         # Set the multiple values flag...
-        if '\u00' in v:
+        if '\x00' in v:
           data.StoreBit(1)
         else:
           data.StoreBit(0)
@@ -59,7 +59,7 @@ class Processor(BaseProcessor):
         data.StoreBits8(128 | len(k))
         data.StoreBits((common_utils.StrToList(k), len(k)*8))
         data.StoreBit(0) # assume not binary value for now
-        if '\u00' in v:
+        if '\x00' in v:
           data.StoreBit(1)
         else:
           data.StoreBit(0)
-- 
2.43.0


From 04827a6c37a7e48a755b71a0208f9ec5092efcac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:21 +0000
Subject: [PATCH 17/28] fix: StoreBits22 stores the 22 low bits, not 30 bits

---
 compressor/bohe/bit_bucket.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/bohe/bit_bucket.py b/compressor/bohe/bit_bucket.py
index 05cceb3..f36f52a 100644
--- a/compressor/bohe/bit_bucket.py
+++ b/compressor/bohe/bit_bucket.py
@@ -63,8 +63,8 @@ class BitBucket:
     """
     Stores the 22 least-significant bits from val in network order (big endian)
     """
-    tmp_val = struct.pack(">I", val)
-    self.StoreBits ( (StrToList(tmp_val), 22))
+    tmp_val = struct.pack(">I", val << 10)
+    self.StoreBits( (StrToList(tmp_val)[:3], 22))
 
   def StoreBits32(self, val):
     """
-- 
2.43.0


From 9798b0e668c605ad915decf5c20dfc502437a9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:21 +0000
Subject: [PATCH 18/28] fix: delta2_bohe imports and uses only what exists

---
 compressor/delta2_bohe/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta2_bohe/__init__.py b/compressor/delta2_bohe/__init__.py
index 4d3defd..9510e2c 100644
--- a/compressor/delta2_bohe/__init__.py
+++ b/compressor/delta2_bohe/__init__.py
@@ -9,7 +9,7 @@ import header_freq_tables
 import spdy4_codec_impl
 import huffman
 import common_utils
-from .. import BaseProcessor, strip_conn_headers
+from .. import BaseProcessor
 
 # There are a number of TODOS in the spdy4
 #      have near indices. Possibly renumber whever something is referenced)
@@ -72,7 +72,7 @@ class Processor(BaseProcessor):
     else:
       group_id = self.group_ids.GetNext()
       self.hosts[normalized_host] = group_id
-    inp_ops = self.compressor.MakeOperations(strip_conn_headers(inp_headers), group_id)
+    inp_ops = self.compressor.MakeOperations(inp_headers, group_id)
     inp_real_ops = self.compressor.OpsToRealOps(inp_ops, group_id)
     compressed_blob = self.compressor.Compress(inp_real_ops)
     return compressed_blob
-- 
2.43.0


From 6f21d3bf4e18de9f980c1453379f47531d64d14d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:21 +0000
Subject: [PATCH 19/28] fix: a stream id with the top bit set is refused with
 an exception that exists

---
 compressor/delta/spdy4_codec_impl.py       | 2 +-
 compressor/delta2/spdy4_codec_impl.py      | 2 +-
 compressor/delta2_bohe/spdy4_codec_impl.py | 2 +-
 compressor/delta_bohe/spdy4_codec_impl.py  | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index 41da906..a5d212d 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -435,7 +435,7 @@ class Spdy4SeDer(object):  # serializer deserializer
 
   def WriteControlFrameStreamId(self, data, stream_id):
     if (stream_id & 0x80000000):
-      abort()
+      raise StandardError()
     data.StoreBits32(0x80000000 | stream_id)
 
   def WriteControlFrameBoilerplate(self,
diff --git a/compressor/delta2/spdy4_codec_impl.py b/compressor/delta2/spdy4_codec_impl.py
index 21894a3..c9c7449 100644
--- a/compressor/delta2/spdy4_codec_impl.py
+++ b/compressor/delta2/spdy4_codec_impl.py
@@ -539,7 +539,7 @@ class Spdy4SeDer(object):  # serializer deserializer
 
   def WriteControlFrameStreamId(self, data, stream_id):
     if (stream_id & 0x80000000):
-      abort()
+      raise StandardError()
     data.StoreBits32(0x80000000 | stream_id)
 
   def WriteControlFrameBoilerplate(self,
diff --git a/compressor/delta2_bohe/spdy4_codec_impl.py b/compressor/delta2_bohe/spdy4_codec_impl.py
index 1067622..afe0c89 100755
--- a/compressor/delta2_bohe/spdy4_codec_impl.py
+++ b/compressor/delta2_bohe/spdy4_codec_impl.py
@@ -458,7 +458,7 @@ class Spdy4SeDer(object):  # serializer deserializer
 
   def WriteControlFrameStreamId(self, data, stream_id):
     if (stream_id & 0x80000000):
-      abort()
+      raise StandardError()
     data.StoreBits32(0x80000000 | stream_id)
 
   def WriteControlFrameBoilerplate(self,
diff --git a/compressor/delta_bohe/spdy4_codec_impl.py b/compressor/delta_bohe/spdy4_codec_impl.py
index 76198cc..e45bb39 100755
--- a/compressor/delta_bohe/spdy4_codec_impl.py
+++ b/compressor/delta_bohe/spdy4_codec_impl.py
@@ -379,7 +379,7 @@ class Spdy4SeDer(object):  # serializer deserializer
 
   def WriteControlFrameStreamId(self, data, stream_id):
     if (stream_id & 0x80000000):
-      abort()
+      raise StandardError()
     data.StoreBits32(0x80000000 | stream_id)
 
   def WriteControlFrameBoilerplate(self,
-- 
2.43.0


From 765b129cdafddcdd86ad6fd53c7a22bb55ef9537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:52 +0000
Subject: [PATCH 20/28] fix: bohe writes the binary flag of every registered
 header

---
 compressor/bohe/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/compressor/bohe/__init__.py b/compressor/bohe/__init__.py
index 648eb6c..7a17655 100644
--- a/compressor/bohe/__init__.py
+++ b/compressor/bohe/__init__.py
@@ -42,6 +42,8 @@ class Processor(BaseProcessor):
         if k in bohe.ENCODERS:
           data.StoreBit(1)
           dohuff = False
+        else:
+          data.StoreBit(0)
         # Set the multiple values flag...
         if '\x00' in v:
           data.StoreBit(1)
-- 
2.43.0


From 9f238b2b891b5080fdff03264579358a1787861f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:36 +0000
Subject: [PATCH 21/28] fix: the operation count written never exceeds the
 field that holds it

A run of more than 256 operations wrote every remaining operation under a
count of 256, so the decoder read an operand as an opcode (300 headers in one
message raised KeyError in delta).
---
 compressor/delta/spdy4_codec_impl.py       | 5 ++---
 compressor/delta2_bohe/spdy4_codec_impl.py | 5 ++---
 compressor/delta_bohe/spdy4_codec_impl.py  | 5 ++---
 3 files changed, 6 insertions(+), 9 deletions(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index a5d212d..58468e2 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -402,10 +402,9 @@ class Spdy4SeDer(object):  # serializer deserializer
     ops_idx = 0
     ops_len = len(ops)
     while ops_len > ops_idx:
-      ops_to_go = ops_len - ops_idx
-      iteration_end = min(ops_to_go, 256) + ops_idx
+      ops_to_go = min(ops_len - ops_idx, 256)
       data.StoreBits8(OpcodeToVal(opcode))
-      data.StoreBits8(min(256, ops_to_go) - 1)
+      data.StoreBits8(ops_to_go - 1)
       orig_idx = ops_idx
       for i in xrange(ops_to_go):
         try:
diff --git a/compressor/delta2_bohe/spdy4_codec_impl.py b/compressor/delta2_bohe/spdy4_codec_impl.py
index afe0c89..62dc076 100755
--- a/compressor/delta2_bohe/spdy4_codec_impl.py
+++ b/compressor/delta2_bohe/spdy4_codec_impl.py
@@ -422,10 +422,9 @@ class Spdy4SeDer(object):  # serializer deserializer
     ops_idx = 0
     ops_len = len(ops)
     while ops_len > ops_idx:
-      ops_to_go = ops_len - ops_idx
-      iteration_end = min(ops_to_go, 256) + ops_idx
+      ops_to_go = min(ops_len - ops_idx, 256)
       data.StoreBits8(OpcodeToVal(opcode))
-      data.StoreBits8(min(256, ops_to_go) - 1)
+      data.StoreBits8(ops_to_go - 1)
       orig_idx = ops_idx
       for i in xrange(ops_to_go):
         try:
diff --git a/compressor/delta_bohe/spdy4_codec_impl.py b/compressor/delta_bohe/spdy4_codec_impl.py
index e45bb39..ddd953d 100755
--- a/compressor/delta_bohe/spdy4_codec_impl.py
+++ b/compressor/delta_bohe/spdy4_codec_impl.py
@@ -350,10 +350,9 @@ class Spdy4SeDer(object):  # serializer deserializer
     ops_idx = 0
     ops_len = len(ops)
     while ops_len > ops_idx:
-      ops_to_go = ops_len - ops_idx
-      iteration_end = min(ops_to_go, 256) + ops_idx
+      ops_to_go = min(ops_len - ops_idx, 256)
       data.StoreBits8(OpcodeToVal(opcode))
-      data.StoreBits8(min(256, ops_to_go) - 1)
+      data.StoreBits8(ops_to_go - 1)
       orig_idx = ops_idx
       for i in xrange(ops_to_go):
         self.WriteOpData(data, ops[orig_idx + i], huff)
-- 
2.43.0


From 7f33457192d1aa26b383433dfd528fadbb126e93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:35 +0000
Subject: [PATCH 22/28] fix: a message longer than one frame is split and put
 back together

Every frame was marked as the last and carried the whole rest of the payload
under a length that was too small, so the delta decoders lost the end of a
message whose operations take more than 64K (four headers of 30000 bytes).
---
 compressor/delta/spdy4_codec_impl.py       | 26 +++++++++++++---------
 compressor/delta2/spdy4_codec_impl.py      | 26 +++++++++++++---------
 compressor/delta2_bohe/spdy4_codec_impl.py | 26 +++++++++++++---------
 compressor/delta_bohe/spdy4_codec_impl.py  | 24 ++++++++++++--------
 4 files changed, 63 insertions(+), 39 deletions(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index 58468e2..2f8d7da 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -489,13 +489,14 @@ class Spdy4SeDer(object):  # serializer deserializer
       #print 'payload_len: ', payload_len
       bytes_to_consume = min(payload_len, bytes_allowed)
       #print 'bytes_to_consume: ', bytes_to_consume
-      end_of_frame = (bytes_to_consume <= payload_len)
+      end_of_frame = (bytes_to_consume >= payload_len)
       #print 'end_of_Frame: ', end_of_frame
       self.WriteControlFrameBoilerplate(overall_bb, bytes_to_consume,
                                         end_of_frame, stream_id, group_id, 0x8)
-      overall_bb.StoreBits( (payload, bytes_to_consume*8))
+      overall_bb.StoreBits(
+          (payload[:bytes_to_consume], bytes_to_consume*8))
       payload = payload[bytes_to_consume:]
-      payload_len -= bytes_allowed
+      payload_len -= bytes_to_consume
       if payload_len <= 0:
         break
     return overall_bb.GetAllBits()
@@ -506,21 +507,26 @@ class Spdy4SeDer(object):  # serializer deserializer
     It returns these operations.
     """
     ops = []
-    bb = BitBucket()
-    bb.StoreBits(frame.GetAllBits())
+    frames = BitBucket()
+    frames.StoreBits(frame.GetAllBits())
+    bb = BitBucket()  # the payload, which may be spread over several frames
     flags = 0
     #print 'DeserializeInstructions'
     while flags == 0:
-      frame_len = bb.GetBits16() * 8
+      frame_len = frames.GetBits16() * 8
       #print 'frame_len: ', frame_len
-      flags = bb.GetBits8()
+      flags = frames.GetBits8()
       #print 'flags: ', flags
-      stream_id = bb.GetBits32()
+      stream_id = frames.GetBits32()
       #print 'stream_id: ', stream_id
-      frame_type = bb.GetBits8()
+      frame_type = frames.GetBits8()
       #print 'frame_type: ', frame_type
-      group_id = bb.GetBits8()
+      group_id = frames.GetBits8()
       #print 'group_id: ', group_id
+      bb.StoreBits(frames.GetBits(frame_len))
+      if flags == 0:
+        continue
+      frame_len = bb.NumBits()
       while frame_len > 16:  # 16 bits minimum for the opcode + count...
         bits_remaining_at_start = bb.BitsRemaining()
         opcode_val = bb.GetBits8()
diff --git a/compressor/delta2/spdy4_codec_impl.py b/compressor/delta2/spdy4_codec_impl.py
index c9c7449..9999cc3 100644
--- a/compressor/delta2/spdy4_codec_impl.py
+++ b/compressor/delta2/spdy4_codec_impl.py
@@ -600,15 +600,16 @@ class Spdy4SeDer(object):  # serializer deserializer
       #print 'payload_len: ', payload_len
       bytes_to_consume = min(payload_len, bytes_allowed)
       #print 'bytes_to_consume: ', bytes_to_consume
-      end_of_frame = (bytes_to_consume <= payload_len)
+      end_of_frame = (bytes_to_consume >= payload_len)
       #print 'end_of_Frame: ', end_of_frame
       self.WriteControlFrameBoilerplate(overall_bb, bytes_to_consume,
                                         end_of_frame, stream_id, group_id, 0x8)
       if verbose >= 5:
         descr.appendleft(FormatHex(overall_bb.GetAllBits()[0]))
-      overall_bb.StoreBits( (payload, bytes_to_consume*8))
+      overall_bb.StoreBits(
+          (payload[:bytes_to_consume], bytes_to_consume*8))
       payload = payload[bytes_to_consume:]
-      payload_len -= bytes_allowed
+      payload_len -= bytes_to_consume
       if payload_len <= 0:
         break
     if verbose >= 5:
@@ -624,21 +625,26 @@ class Spdy4SeDer(object):  # serializer deserializer
     (group_id, ops)
     """
     ops = []
-    bb = BitBucket()
-    bb.StoreBits(frame.GetAllBits())
+    frames = BitBucket()
+    frames.StoreBits(frame.GetAllBits())
+    bb = BitBucket()  # the payload, which may be spread over several frames
     flags = 0
     #print 'DeserializeInstructions'
     while flags == 0:
-      frame_len = bb.GetBits16() * 8 # in bits
+      frame_len = frames.GetBits16() * 8 # in bits
       #print 'frame_len: ', frame_len
-      frame_type = bb.GetBits8()
+      frame_type = frames.GetBits8()
       #print 'frame_type: ', frame_type
-      flags = bb.GetBits8()
+      flags = frames.GetBits8()
       #print 'flags: ', flags
-      stream_id = bb.GetBits32()
+      stream_id = frames.GetBits32()
       #print 'stream_id: ', stream_id
-      group_id = bb.GetBits8()
+      group_id = frames.GetBits8()
       #print 'group_id: ', group_id
+      bb.StoreBits(frames.GetBits(frame_len))
+      if flags == 0:
+        continue
+      frame_len = bb.NumBits()
       while frame_len > 8:
         bits_remaining_at_start = bb.BitsRemaining()
         try:
diff --git a/compressor/delta2_bohe/spdy4_codec_impl.py b/compressor/delta2_bohe/spdy4_codec_impl.py
index 62dc076..163c81c 100755
--- a/compressor/delta2_bohe/spdy4_codec_impl.py
+++ b/compressor/delta2_bohe/spdy4_codec_impl.py
@@ -510,13 +510,14 @@ class Spdy4SeDer(object):  # serializer deserializer
       #print 'payload_len: ', payload_len
       bytes_to_consume = min(payload_len, bytes_allowed)
       #print 'bytes_to_consume: ', bytes_to_consume
-      end_of_frame = (bytes_to_consume <= payload_len)
+      end_of_frame = (bytes_to_consume >= payload_len)
       #print 'end_of_Frame: ', end_of_frame
       self.WriteControlFrameBoilerplate(overall_bb, bytes_to_consume,
                                         end_of_frame, stream_id, group_id, 0x8)
-      overall_bb.StoreBits( (payload, bytes_to_consume*8))
+      overall_bb.StoreBits(
+          (payload[:bytes_to_consume], bytes_to_consume*8))
       payload = payload[bytes_to_consume:]
-      payload_len -= bytes_allowed
+      payload_len -= bytes_to_consume
       if payload_len <= 0:
         break
     return overall_bb.GetAllBits()
@@ -527,21 +528,26 @@ class Spdy4SeDer(object):  # serializer deserializer
     It returns these operations.
     """
     ops = []
-    bb = BitBucket()
-    bb.StoreBits(frame.GetAllBits())
+    frames = BitBucket()
+    frames.StoreBits(frame.GetAllBits())
+    bb = BitBucket()  # the payload, which may be spread over several frames
     flags = 0
     #print 'DeserializeInstructions'
     while flags == 0:
-      frame_len = bb.GetBits16() * 8
+      frame_len = frames.GetBits16() * 8
       #print 'frame_len: ', frame_len
-      flags = bb.GetBits8()
+      flags = frames.GetBits8()
       #print 'flags: ', flags
-      stream_id = bb.GetBits32()
+      stream_id = frames.GetBits32()
       #print 'stream_id: ', stream_id
-      frame_type = bb.GetBits8()
+      frame_type = frames.GetBits8()
       #print 'frame_type: ', frame_type
-      group_id = bb.GetBits8()
+      group_id = frames.GetBits8()
       #print 'group_id: ', group_id
+      bb.StoreBits(frames.GetBits(frame_len))
+      if flags == 0:
+        continue
+      frame_len = bb.NumBits()
       while frame_len > 16:  # 16 bits minimum for the opcode + count...
         bits_remaining_at_start = bb.BitsRemaining()
         opcode_val = bb.GetBits8()
diff --git a/compressor/delta_bohe/spdy4_codec_impl.py b/compressor/delta_bohe/spdy4_codec_impl.py
index ddd953d..f6d4469 100755
--- a/compressor/delta_bohe/spdy4_codec_impl.py
+++ b/compressor/delta_bohe/spdy4_codec_impl.py
@@ -428,13 +428,14 @@ class Spdy4SeDer(object):  # serializer deserializer
       #print 'payload_len: ', payload_len
       bytes_to_consume = min(payload_len, bytes_allowed)
       #print 'bytes_to_consume: ', bytes_to_consume
-      end_of_frame = (bytes_to_consume <= payload_len)
+      end_of_frame = (bytes_to_consume >= payload_len)
       #print 'end_of_Frame: ', end_of_frame
       self.WriteControlFrameBoilerplate(overall_bb, bytes_to_consume,
                                         end_of_frame, stream_id, 0x8)
-      overall_bb.StoreBits( (payload, bytes_to_consume*8))
+      overall_bb.StoreBits(
+          (payload[:bytes_to_consume], bytes_to_consume*8))
       payload = payload[bytes_to_consume:]
-      payload_len -= bytes_allowed
+      payload_len -= bytes_to_consume
       if payload_len <= 0:
         break
     return overall_bb.GetAllBits()
@@ -445,19 +446,24 @@ class Spdy4SeDer(object):  # serializer deserializer
     It returns these operations.
     """
     ops = []
-    bb = BitBucket()
-    bb.StoreBits(frame.GetAllBits())
+    frames = BitBucket()
+    frames.StoreBits(frame.GetAllBits())
+    bb = BitBucket()  # the payload, which may be spread over several frames
     flags = 0
     #print 'DeserializeInstructions'
     while flags == 0:
-      frame_len = bb.GetBits16() * 8
+      frame_len = frames.GetBits16() * 8
       #print 'frame_len: ', frame_len
-      flags = bb.GetBits8()
+      flags = frames.GetBits8()
       #print 'flags: ', flags
-      stream_id = bb.GetBits32()
+      stream_id = frames.GetBits32()
       #print 'stream_id: ', stream_id
-      frame_type = bb.GetBits8()
+      frame_type = frames.GetBits8()
       #print 'frame_type: ', frame_type
+      bb.StoreBits(frames.GetBits(frame_len))
+      if flags == 0:
+        continue
+      frame_len = bb.NumBits()
       while frame_len > 16:  # 16 bits minimum for the opcode + count...
         bits_remaining_at_start = bb.BitsRemaining()
         opcode_val = bb.GetBits8()
-- 
2.43.0


From cb7d6bbe2735bc5984fa69b97bd2b06bc3811b24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:39:12 +0000
Subject: [PATCH 23/28] fix: delta and delta_bohe storages evict for bytes,
 count values and forget keys

MakeSpace called a function that does not exist (NameError as soon as the byte
limit was reached), value bytes were subtracted on eviction but never added,
evicted keys stayed in the tables, delta_bohe stopped after one eviction, and
an entry larger than the storage was stored anyway.
---
 compressor/delta/spdy4_codec_impl.py      | 12 +++++++++--
 compressor/delta_bohe/spdy4_codec_impl.py | 26 +++++++++++++----------
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/compressor/delta/spdy4_codec_impl.py b/compressor/delta/spdy4_codec_impl.py
index 2f8d7da..29b3029 100644
--- a/compressor/delta/spdy4_codec_impl.py
+++ b/compressor/delta/spdy4_codec_impl.py
@@ -693,7 +693,7 @@ class Storage(object):
       if not self.PopOne():
         return
     while self.state_size + space_required > self.max_state_size:
-      if not PopOne():
+      if not self.PopOne():
         return
 
   def FindKeyEntry(self, key): ####
@@ -736,9 +736,15 @@ class Storage(object):
       return None
     self.IncrementRefCnt(ke)
     self.MakeSpace(len(val), 1)
+    self.DecrementRefCnt(ke)
+    if self.num_vals + 1 > self.max_vals or \
+       self.state_size + len(val) > self.max_state_size:
+      # it does not fit even when everything else is evicted.
+      self.MaybeRemoveFromKeyMap(ke)
+      return None
+    self.state_size += len(val)
     self.num_vals += 1
     ke.val_map[val] = ve = self.NewVE(key, val, ke)
-    self.DecrementRefCnt(ke)
     return ve
 
   def GetNextUnusedLruId(self):
@@ -795,6 +801,8 @@ class Storage(object):
     if not ke or len(ke.val_map) > 0 or ke.ref_cnt > 0:
       return
     self.state_size -= len(ke.key())
+    del self.key_map[ke.key()]
+    del self.key_idx_to_ke[ke.key_idx]
 
   def RemoveVal(self, ve): ####
     self.RemoveFromLRU(ve)
diff --git a/compressor/delta_bohe/spdy4_codec_impl.py b/compressor/delta_bohe/spdy4_codec_impl.py
index f6d4469..f6533cb 100755
--- a/compressor/delta_bohe/spdy4_codec_impl.py
+++ b/compressor/delta_bohe/spdy4_codec_impl.py
@@ -585,6 +585,7 @@ class Storage(object):
     if self.remove_val_cb:
       self.remove_val_cb(ve)
     self.RemoveVal(ve)
+    return 1
 
   def MakeSpace(self, space_required, adding_val):  ####
     """
@@ -595,7 +596,7 @@ class Storage(object):
       if not self.PopOne():
         return
     while self.state_size + space_required > self.max_state_size:
-      if not PopOne():
+      if not self.PopOne():
         return
 
   def FindKeyEntry(self, key): ####
@@ -652,9 +653,15 @@ class Storage(object):
       raise StandardError()
     self.IncrementRefCnt(ke)
     self.MakeSpace(len(val), 1)
+    self.DecrementRefCnt(ke)
+    if self.num_vals + 1 > self.max_vals or \
+       self.state_size + len(val) > self.max_state_size:
+      # it does not fit even when everything else is evicted.
+      self.MaybeRemoveFromKeyMap(ke)
+      return None
+    self.state_size += len(val)
     self.num_vals += 1
     ke['val_map'][val] = ve = self.NewVE(key, val, ke)
-    self.DecrementRefCnt(ke)
     return ve
 
   def AddToHeadOfLRU(self, ve): ####
@@ -692,6 +699,8 @@ class Storage(object):
     if not ke or len(ke['val_map']) > 0 or ke['ref_cnt'] > 0:
       return
     self.state_size -= len(ke['key'])
+    del self.key_map[ke['key']]
+    del self.key_idx_to_ke[ke['key_idx']]
 
   def RemoveVal(self, ve): ####
     self.RemoveFromLRU(ve)
@@ -726,15 +735,9 @@ class Spdy4CoDe(object):
     self.wf = WordFreak()
     self.storage = Storage()
     def RemoveVEFromAllHeaderGroups(ve):
-      to_be_removed = []
       for group_id, header_group in self.header_groups.iteritems():
         #print "Removing %d from hg %d" % (ve['lru_idx'], group_id)
         header_group.RemoveEntry(ve)
-        if header_group.Empty():
-          to_be_removed.append(group_id)
-      for group_id in to_be_removed:
-        #print "Deleted group_id: %d" % group_id
-        del header_group[group_id]
 
     self.storage.SetRemoveValCB(RemoveVEFromAllHeaderGroups)
 
@@ -989,12 +992,13 @@ class Spdy4CoDe(object):
       if ke is None:
         raise StandardError()
       ve = self.storage.InsertVal(ke['key'], op['val'])
-      self.storage.AddToHeadOfLRU(ve)
-      self.TouchHeaderGroupEntry(group_id, ve)
+      if ve is not None:
+        self.storage.AddToHeadOfLRU(ve)
+        self.TouchHeaderGroupEntry(group_id, ve)
     elif opcode == 'kvsto':
       # kvsto - store key,value
       ve = self.storage.InsertVal(op['key'], op['val'])
-      if group_id is not None:
+      if group_id is not None and ve is not None:
         self.storage.AddToHeadOfLRU(ve)
         self.TouchHeaderGroupEntry(group_id, ve)
     elif opcode == 'eref' and ephemereal_headers is not None:
-- 
2.43.0


From a6c0906de5053ab1fe36d258ef500dff167150d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:08 +0000
Subject: [PATCH 24/28] fix: delta2_bohe skips what does not fit its storage
 instead of failing

A header larger than the storage popped from an empty ring (IndexError); a
header group emptied by evictions in the middle of a message was looked up
again (KeyError).
---
 compressor/delta2_bohe/lrustorage.py       |  2 +-
 compressor/delta2_bohe/spdy4_codec_impl.py | 10 ++++++----
 2 files changed, 7 insertions(+), 5 deletions(-)

diff --git a/compressor/delta2_bohe/lrustorage.py b/compressor/delta2_bohe/lrustorage.py
index 3f928cb..9803fae 100755
--- a/compressor/delta2_bohe/lrustorage.py
+++ b/compressor/delta2_bohe/lrustorage.py
@@ -39,7 +39,7 @@ class LruStorage:
           return  0 # can't pop one, nothing more to do.
     if self.max_bytes:
       while self.byte_size + byte_size > self.max_bytes:
-        if not self.PopOne():
+        if not self.ring or not self.PopOne():
           return 0 # can't pop one, nothing more to do.
     return 1
 
diff --git a/compressor/delta2_bohe/spdy4_codec_impl.py b/compressor/delta2_bohe/spdy4_codec_impl.py
index 163c81c..463c60f 100755
--- a/compressor/delta2_bohe/spdy4_codec_impl.py
+++ b/compressor/delta2_bohe/spdy4_codec_impl.py
@@ -662,7 +662,8 @@ class Storage(object):
     return self.lru_storage.Lookup(entry_seqnum)
 
   def InsertVal(self, entry):
-    self.lru_storage.Reserve(entry.ByteSize(), 1)
+    if not self.lru_storage.Reserve(entry.ByteSize(), 1):
+      return None  # it does not fit even when everything else is evicted.
     self.lru_storage.Store(entry)
     return self.lru_storage.ring[-1].seq_num
 
@@ -803,7 +804,7 @@ class Spdy4CoDe(object):
       ke = self.storage.LookupFromIdx(key_idx)
       if ke is None:
          print "key_idx: ", key_idx, " and ke is None. crap."
-         print self.storage.lru
+         print self.storage.lru_storage
          raise StandardError()
       tclon = self.MakeTclon(ke.key, val)
       #print "\t\t\t translated clone %d to tclon %r" % (key_idx, tclon)
@@ -878,7 +879,7 @@ class Spdy4CoDe(object):
     #print FormatOps(instructions)
     #print "LRU(after Make+Execute) ", self.storage.lru_storage
     #self.storage.UnPinLRU()
-    self.header_groups[group_id].IncrementGeneration()
+    self.FindOrMakeHeaderGroup(group_id).IncrementGeneration()
     self.AdjustHeaderGroupEntries(group_id)
     #FormatOps(instructions, 'MO\t')
     return instructions
@@ -937,7 +938,8 @@ class Spdy4CoDe(object):
       # kvsto - store key,value
       #print "\t\t!!! %s %s %s" % (opcode, op['key'], op['val'])
       v_idx = self.storage.InsertVal(lrustorage.KV(op['key'], op['val']))
-      self.TouchHeaderGroupEntry(group_id, v_idx)
+      if v_idx is not None:
+        self.TouchHeaderGroupEntry(group_id, v_idx)
     elif opcode == 'eref' and ephemereal_headers is not None:
       ephemereal_headers[op['key']] = op['val']
 
-- 
2.43.0


From 6697ed33f44dfee67df41b29ccc8eb109b18d731 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:00 +0000
Subject: [PATCH 25/28] fix: the C++ bit buffer counts aligned writes and
 checks what is left to read

StoreBits8, StoreBits16 and StoreBits32 did not add to the bit count when the
buffer was byte aligned, and GetBits compared the request with everything ever
stored instead of what had not been read.
---
 compressor/delta/bit_bucket.h      | 5 ++++-
 compressor/delta_bohe/bit_bucket.h | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/bit_bucket.h b/compressor/delta/bit_bucket.h
index b7bc2f9..848aeaf 100644
--- a/compressor/delta/bit_bucket.h
+++ b/compressor/delta/bit_bucket.h
@@ -135,6 +135,7 @@ class BitBucket {
   void StoreBits8(uint8_t val) {
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val));
+      num_bits += 8;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
@@ -147,6 +148,7 @@ class BitBucket {
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val >> 8));
       bsa.push_back(static_cast<uint8_t>(val & 255u));
+      num_bits += 16;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
@@ -165,6 +167,7 @@ class BitBucket {
       bsa.push_back(static_cast<uint8_t>(255u & (val >> 16)));
       bsa.push_back(static_cast<uint8_t>(255u & (val >>  8)));
       bsa.push_back(static_cast<uint8_t>(255u & (val >>  0)));
+      num_bits += 32;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
@@ -274,7 +277,7 @@ class BitBucket {
     size_t output_bytes = (num_bits + 7) / 8;
     retval->reserve(output_bytes);
     size_t old_idx_boff = idx_boff;
-    if (num_bits > NumBits()) {
+    if (BitsConsumed() + num_bits > NumBits()) {
       cerr << "Oops, we're asking to get more bits than are available.\n";
       cerr << "Bits available: " << BitsRemaining() << "\n";
       cerr << "Bits requested: " << num_bits << "\n";
diff --git a/compressor/delta_bohe/bit_bucket.h b/compressor/delta_bohe/bit_bucket.h
index b7bc2f9..848aeaf 100644
--- a/compressor/delta_bohe/bit_bucket.h
+++ b/compressor/delta_bohe/bit_bucket.h
@@ -135,6 +135,7 @@ class BitBucket {
   void StoreBits8(uint8_t val) {
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val));
+      num_bits += 8;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
@@ -147,6 +148,7 @@ class BitBucket {
     if (bsa_boff == 0) {
       bsa.push_back(static_cast<uint8_t>(val >> 8));
       bsa.push_back(static_cast<uint8_t>(val & 255u));
+      num_bits += 16;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
@@ -165,6 +167,7 @@ class BitBucket {
       bsa.push_back(static_cast<uint8_t>(255u & (val >> 16)));
       bsa.push_back(static_cast<uint8_t>(255u & (val >>  8)));
       bsa.push_back(static_cast<uint8_t>(255u & (val >>  0)));
+      num_bits += 32;
       return;
     }
     size_t bits_left_in_byte = 8 - bsa_boff;
@@ -274,7 +277,7 @@ class BitBucket {
     size_t output_bytes = (num_bits + 7) / 8;
     retval->reserve(output_bytes);
     size_t old_idx_boff = idx_boff;
-    if (num_bits > NumBits()) {
+    if (BitsConsumed() + num_bits > NumBits()) {
       cerr << "Oops, we're asking to get more bits than are available.\n";
       cerr << "Bits available: " << BitsRemaining() << "\n";
       cerr << "Bits requested: " << num_bits << "\n";
-- 
2.43.0


From 5333ee17ee898c100ee520b5e7d8599e0f1a4a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:05 +0000
Subject: [PATCH 26/28] fix: C++ delta codec's SetMaxVals sets the number of
 values, not the state size

---
 compressor/delta/spdy4_headers_codec.cc      | 2 +-
 compressor/delta_bohe/spdy4_headers_codec.cc | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/spdy4_headers_codec.cc b/compressor/delta/spdy4_headers_codec.cc
index 031533f..93c081a 100644
--- a/compressor/delta/spdy4_headers_codec.cc
+++ b/compressor/delta/spdy4_headers_codec.cc
@@ -1296,5 +1296,5 @@ void SPDY4HeadersCodec::SetMaxStateSize(size_t size) {
 }
 
 void SPDY4HeadersCodec::SetMaxVals(size_t size) {
-  impl->SetMaxStateSize(size);
+  impl->SetMaxVals(size);
 }
diff --git a/compressor/delta_bohe/spdy4_headers_codec.cc b/compressor/delta_bohe/spdy4_headers_codec.cc
index 031533f..93c081a 100644
--- a/compressor/delta_bohe/spdy4_headers_codec.cc
+++ b/compressor/delta_bohe/spdy4_headers_codec.cc
@@ -1296,5 +1296,5 @@ void SPDY4HeadersCodec::SetMaxStateSize(size_t size) {
 }
 
 void SPDY4HeadersCodec::SetMaxVals(size_t size) {
-  impl->SetMaxStateSize(size);
+  impl->SetMaxVals(size);
 }
-- 
2.43.0


From 6c5a22a12fab7697e27210ba78647d3f3f6a4db7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:05 +0000
Subject: [PATCH 27/28] fix: C++ delta codec writes the toggles it found
 instead of dropping them

---
 compressor/delta/spdy4_headers_codec.cc      | 4 +++-
 compressor/delta_bohe/spdy4_headers_codec.cc | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/compressor/delta/spdy4_headers_codec.cc b/compressor/delta/spdy4_headers_codec.cc
index 93c081a..ccf45d1 100644
--- a/compressor/delta/spdy4_headers_codec.cc
+++ b/compressor/delta/spdy4_headers_codec.cc
@@ -1032,16 +1032,18 @@ class InlineSerialization :
 
       if (!ot->empty()) {
         if ((idx - ot->back()) == 1) {
-          ot->pop_back();
           otr->push_back(make_pair(ot->back(), idx));
+          ot->pop_back();
           continue;
         }
       }
       if (!otr->empty()) {
         if ((idx - otr->back().second) == 1) {
           otr->back().second = idx;
+          continue;
         }
       }
+      ot->push_back(idx);
     }
   }
 
diff --git a/compressor/delta_bohe/spdy4_headers_codec.cc b/compressor/delta_bohe/spdy4_headers_codec.cc
index 93c081a..ccf45d1 100644
--- a/compressor/delta_bohe/spdy4_headers_codec.cc
+++ b/compressor/delta_bohe/spdy4_headers_codec.cc
@@ -1032,16 +1032,18 @@ class InlineSerialization :
 
       if (!ot->empty()) {
         if ((idx - ot->back()) == 1) {
-          ot->pop_back();
           otr->push_back(make_pair(ot->back(), idx));
+          ot->pop_back();
           continue;
         }
       }
       if (!otr->empty()) {
         if ((idx - otr->back().second) == 1) {
           otr->back().second = idx;
+          continue;
         }
       }
+      ot->push_back(idx);
     }
   }
 
-- 
2.43.0


From 080ad952b23e98355cc8551f6349e94b34980b16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:30:05 +0000
Subject: [PATCH 28/28] fix: C++ delta codec no longer reads evicted entries
 when it writes toggles

---
 compressor/delta/spdy4_headers_codec.cc      | 7 ++++---
 compressor/delta_bohe/spdy4_headers_codec.cc | 7 ++++---
 2 files changed, 8 insertions(+), 6 deletions(-)

diff --git a/compressor/delta/spdy4_headers_codec.cc b/compressor/delta/spdy4_headers_codec.cc
index ccf45d1..f9645bc 100644
--- a/compressor/delta/spdy4_headers_codec.cc
+++ b/compressor/delta/spdy4_headers_codec.cc
@@ -520,10 +520,11 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
 
   struct ToggleOp {
     ValEntry* entry;
+    LRUIdx lru_idx;  // kept here, since the entry may be gone when it is sent.
    public:
-    explicit ToggleOp(ValEntry* kv) : entry(kv) { }
-    ToggleOp() : entry(0) {}
-    LRUIdx idx() const { return entry->lru_idx; }
+    explicit ToggleOp(ValEntry* kv) : entry(kv), lru_idx(kv->lru_idx) { }
+    ToggleOp() : entry(0), lru_idx(0) {}
+    LRUIdx idx() const { return lru_idx; }
     bool operator<(const ToggleOp& ob_b) const {
       return idx() < ob_b.idx();
     }
diff --git a/compressor/delta_bohe/spdy4_headers_codec.cc b/compressor/delta_bohe/spdy4_headers_codec.cc
index ccf45d1..f9645bc 100644
--- a/compressor/delta_bohe/spdy4_headers_codec.cc
+++ b/compressor/delta_bohe/spdy4_headers_codec.cc
@@ -520,10 +520,11 @@ class SPDY4HeadersCodecImpl : public Storage::ValEntryRemovalInterface {
 
   struct ToggleOp {
     ValEntry* entry;
+    LRUIdx lru_idx;  // kept here, since the entry may be gone when it is sent.
    public:
-    explicit ToggleOp(ValEntry* kv) : entry(kv) { }
-    ToggleOp() : entry(0) {}
-    LRUIdx idx() const { return entry->lru_idx; }
+    explicit ToggleOp(ValEntry* kv) : entry(kv), lru_idx(kv->lru_idx) { }
+    ToggleOp() : entry(0), lru_idx(0) {}
+    LRUIdx idx() const { return lru_idx; }
     bool operator<(const ToggleOp& ob_b) const {
       return idx() < ob_b.idx();
     }
-- 
2.43.0

