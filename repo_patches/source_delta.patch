From 32d868c5131997120c1dfc556cec293725acafdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:43 +0000
Subject: [PATCH 01/25] fix: write 124 unit XXX stitches in the short form

The long form is read back as a jump, so a stitch at exactly the maximum
length the format's encoder settings allow lost its penetration.
---
 pyembroidery/XxxWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/XxxWriter.py b/pyembroidery/XxxWriter.py
index 913a533..c27e423 100644
--- a/pyembroidery/XxxWriter.py
+++ b/pyembroidery/XxxWriter.py
@@ -82,7 +82,7 @@ def write_xxx_stitches(pattern, f):
         if data == END:
             break
         if data == STITCH:
-            if -124 < dx < 124 and -124 < dy < 124:
+            if -124 <= dx <= 124 and -124 <= dy <= 124:
                 write_int_8(f, dx)
                 write_int_8(f, -dy)
                 continue
-- 
2.43.0


From a79ee725bea86f9d6066182de40bba32885897b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:05 +0000
Subject: [PATCH 02/25] fix: accept the memo argument in
 EmbPattern.__deepcopy__

copy.deepcopy() of a pattern raised TypeError.
---
 pyembroidery/EmbPattern.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 7b4e7e0..e57057c 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -145,7 +145,7 @@ class EmbPattern:
     def __copy__(self):
         return self.copy()
 
-    def __deepcopy__(self):
+    def __deepcopy__(self, memo):
         return self.copy()
 
     def __iadd__(self, other):
-- 
2.43.0


From 0af8b3d3d3e66d1694f09d2ce5bd66a5b01bf1d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:46 +0000
Subject: [PATCH 03/25] fix: return self from the in-place operators

'pattern += []' and 'matrix @= other' replaced the object by None.
---
 pyembroidery/EmbMatrix.py  | 1 +
 pyembroidery/EmbPattern.py | 2 +-
 2 files changed, 2 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/EmbMatrix.py b/pyembroidery/EmbMatrix.py
index a8c69ab..363768d 100644
--- a/pyembroidery/EmbMatrix.py
+++ b/pyembroidery/EmbMatrix.py
@@ -22,6 +22,7 @@ class EmbMatrix:
 
     def __imatmul__(self, other):
         self.m = EmbMatrix.matrix_multiply(self.m, other.m)
+        return self
 
     def __str__(self):
         return "[%3f, %3f, %3f\n %3f, %3f, %3f\n %3f, %3f, %3f]" % self.m
diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index e57057c..ce518a4 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -162,7 +162,7 @@ class EmbPattern:
             self.add_command(other)
         elif isinstance(other, list) or isinstance(other, tuple):  # tuple or list
             if len(other) == 0:
-                return
+                return self
             v = other[0]
             if isinstance(v, list) or isinstance(
                 v, tuple
-- 
2.43.0


From 75c9c822a7f2222cc98f9f4f27a106d9a4d2cffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:49 +0000
Subject: [PATCH 04/25] fix: do not share stitches between a pattern and its
 copies

copy(), EmbPattern(pattern) and add_pattern() shared the stitch lists, so
translating or joining one pattern changed the other.
---
 pyembroidery/EmbPattern.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index ce518a4..1040567 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -87,7 +87,7 @@ class EmbPattern:
         if len_args >= 1:
             arg0 = args[0]
             if isinstance(arg0, EmbPattern):
-                self.stitches = arg0.stitches[:]
+                self.stitches = [stitch[:] for stitch in arg0.stitches]
                 self.threadlist = arg0.threadlist[:]
                 self.extras.update(arg0.extras)
                 self._previousX = arg0._previousX
@@ -206,7 +206,7 @@ class EmbPattern:
 
     def copy(self):
         emb_pattern = EmbPattern()
-        emb_pattern.stitches = self.stitches[:]
+        emb_pattern.stitches = [stitch[:] for stitch in self.stitches]
         emb_pattern.threadlist = self.threadlist[:]
         emb_pattern.extras.update(self.extras)
         emb_pattern._previousX = self._previousX
@@ -641,7 +641,7 @@ class EmbPattern:
                 self.threadlist.extend(pattern.threadlist)
                 self.color_change()
         join_position = len(self.stitches)
-        self.stitches.extend(pattern.stitches)
+        self.stitches.extend([stitch[:] for stitch in pattern.stitches])
 
         for i in range(join_position, len(self.stitches)):
             data = self.stitches[i][2] & COMMAND_MASK
-- 
2.43.0


From 7bbcf03ad02d286b684b775ba8b2a312544defa0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:53 +0000
Subject: [PATCH 05/25] fix: let add_pattern join onto an empty or unthreaded
 pattern

It raised IndexError, and ignored sy when only sy was given.
---
 pyembroidery/EmbPattern.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 1040567..9d9dd62 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -615,7 +615,7 @@ class EmbPattern:
         """
         if isinstance(pattern, str):
             pattern = EmbPattern(pattern)
-        if self.stitches[-1][2] == END:
+        if len(self.stitches) > 0 and self.stitches[-1][2] == END:
             self.stitches = self.stitches[:-1]  # Remove END, if exists
         if dx is not None or dy is not None:
             if dx is None:
@@ -623,7 +623,7 @@ class EmbPattern:
             if dy is None:
                 dy = 0
             self.add_command(MATRIX_TRANSLATE, dx, dy)
-        if sx is not None or sx is not None:
+        if sx is not None or sy is not None:
             if sx is None:
                 sx = sy
             if sy is None:
@@ -635,7 +635,9 @@ class EmbPattern:
         self.fix_color_count()
 
         if len(pattern.threadlist) > 0:
-            if pattern.threadlist[0] == self.threadlist[-1]:
+            if len(self.threadlist) == 0:
+                self.threadlist.extend(pattern.threadlist)
+            elif pattern.threadlist[0] == self.threadlist[-1]:
                 self.threadlist.extend(pattern.threadlist[1:])
             else:
                 self.threadlist.extend(pattern.threadlist)
-- 
2.43.0


From 2ed05eae5560002995c5d88ea2033ea1ef20a285 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:10 +0000
Subject: [PATCH 06/25] fix: do not let writers change the pattern when
 encoding is off

With encode=False the PEC, PES, JEF, VP3 and PNG writers were handed the
caller's pattern, whose stitches, threads and positions they amend.
---
 pyembroidery/EmbPattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 9d9dd62..3388f91 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1632,6 +1632,8 @@ class EmbPattern:
                 except AttributeError:
                     pass
             pattern = pattern.get_normalized_pattern(settings)
+        else:
+            pattern = pattern.copy()  # writers may amend what they write.
 
         if EmbPattern.is_str(stream):
             text_mode = False
-- 
2.43.0


From 93a19f231bf92cf594dabaee8168a2d97576554b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:32 +0000
Subject: [PATCH 07/25] fix: write JEF files of designs with fewer threads than
 colour blocks

An empty design, or one with a block without stitches, raised IndexError.
---
 pyembroidery/JefWriter.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/JefWriter.py b/pyembroidery/JefWriter.py
index 0fdace4..b108247 100644
--- a/pyembroidery/JefWriter.py
+++ b/pyembroidery/JefWriter.py
@@ -44,7 +44,7 @@ def write(pattern, f, settings=None):
         flags = stitch[2] & COMMAND_MASK
         if flags == COLOR_CHANGE or index_in_threadlist == 0:
             # If color change *or* initial color unset.
-            thread = pattern.threadlist[index_in_threadlist]
+            thread = pattern.get_thread_or_filler(index_in_threadlist)
             index_in_threadlist += 1
             color_count += 1
             index_of_jefthread = thread.find_nearest_color_index(jef_threads)
-- 
2.43.0


From f0b727d6bed3a1e95dff3acdc161be3e628e6b68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:37 +0000
Subject: [PATCH 08/25] fix: keep U01 stitches that follow speed changes

Fast and slow pending together turned the next stitch into a trim and a
jump, and a stitch in place after a speed change was not read back.
---
 pyembroidery/U01Writer.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/U01Writer.py b/pyembroidery/U01Writer.py
index cb8a57f..6040c06 100644
--- a/pyembroidery/U01Writer.py
+++ b/pyembroidery/U01Writer.py
@@ -43,9 +43,11 @@ def write(pattern, f, settings=None):
         yy += dy
         if data == SLOW:
             trigger_slow = True
+            trigger_fast = False
             continue
         if data == FAST:
             trigger_fast = True
+            trigger_slow = False
             continue
         cmd = 0x80
         if dy >= 0:
@@ -54,7 +56,10 @@ def write(pattern, f, settings=None):
             cmd |= 0x20
         delta_x = abs(dx)
         delta_y = abs(dy)
-        if data == STITCH:
+        if data == STITCH and delta_x == 0 and delta_y == 0:
+            # With a speed flag this would be read as a bare speed change.
+            f.write(bytes(bytearray([cmd, delta_y, delta_x])))
+        elif data == STITCH:
             if trigger_fast:
                 trigger_fast = False
                 cmd |= 0x02
-- 
2.43.0


From 95ad3f2ac1af475d0aa032142393cefb9dfd4098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:29:43 +0000
Subject: [PATCH 09/25] fix: keep the TBF header at its fixed layout

Names over 16 bytes, or over 201 threads, shifted the needle table and the
stitches, which were then read wrongly.
---
 pyembroidery/TbfWriter.py   | 8 +++++---
 pyembroidery/WriteHelper.py | 9 +++++++++
 2 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/TbfWriter.py b/pyembroidery/TbfWriter.py
index bf47301..465335f 100644
--- a/pyembroidery/TbfWriter.py
+++ b/pyembroidery/TbfWriter.py
@@ -1,6 +1,6 @@
 from . import decode_embroidery_command
 from .EmbConstant import *
-from .WriteHelper import write_string_utf8, write_int_8
+from .WriteHelper import fit_utf8, write_string_utf8, write_int_8
 
 FULL_JUMP = False
 ROUND = True
@@ -20,7 +20,7 @@ def write(pattern, f, settings=None):
     write_string_utf8(f, "3.00")
     for i in range(f.tell(), 0x80):
         f.write(b"\x20")  # space
-    write_string_utf8(f, "LA:%-16s\r" % name)
+    write_string_utf8(f, "LA:%s\r" % fit_utf8("%s" % name, 16, pad=True))
     write_string_utf8(f, "ST:%7d\r" % pattern.count_stitches())
     write_string_utf8(f, "CO:%3d\r" % pattern.count_needle_sets())
 
@@ -45,7 +45,7 @@ def write(pattern, f, settings=None):
 
     # TP is unknown.
     tp = pattern.get_metadata("tp", "EG/")
-    write_string_utf8(f, "TP:%-32s\r" % tp)
+    write_string_utf8(f, "TP:%s\r" % fit_utf8("%s" % tp, 32, pad=True))
 
     # JC is unknown.
     jc = "3"
@@ -69,6 +69,8 @@ def write(pattern, f, settings=None):
     write_string_utf8(f, "DA:")
     if len(pattern.threadlist) > 0:
         for thread in pattern.threadlist:
+            if f.tell() > 0x600 - 7:
+                break  # No room left in the header.
             write_int_8(f, 0x45)
             write_int_8(f, thread.get_red())
             write_int_8(f, thread.get_green())
diff --git a/pyembroidery/WriteHelper.py b/pyembroidery/WriteHelper.py
index e9648c0..f2fe22b 100644
--- a/pyembroidery/WriteHelper.py
+++ b/pyembroidery/WriteHelper.py
@@ -114,6 +114,15 @@ def write_string(stream, string, encoding="utf8"):
         stream.write(bytes(string, encoding))
 
 
+def fit_utf8(string, size, pad=False):
+    """Cuts the string to the characters whose utf8 form takes at most size
+    bytes, and if required pads that form with spaces to exactly size bytes."""
+    data = string.encode("utf8")[:size].decode("utf8", "ignore")
+    if pad:
+        data += " " * (size - len(data.encode("utf8")))
+    return data
+
+
 def write_string_utf8(stream, string):
     # python 2,3 code
     try:
-- 
2.43.0


From 2df8f1281e3835e490ca649b2e1f67314c901c5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:01 +0000
Subject: [PATCH 10/25] fix: keep the DST header at 512 bytes

Long names and extended headers overflowed it, and the reader took the rest
of the header for stitches.
---
 pyembroidery/DstWriter.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/pyembroidery/DstWriter.py b/pyembroidery/DstWriter.py
index 0084404..e44ce52 100644
--- a/pyembroidery/DstWriter.py
+++ b/pyembroidery/DstWriter.py
@@ -1,5 +1,5 @@
 from .EmbConstant import *
-from .WriteHelper import write_string_utf8
+from .WriteHelper import fit_utf8, write_string_utf8
 
 SEQUIN_CONTINGENCY = CONTINGENCY_SEQUIN_UTILIZE
 FULL_JUMP = False
@@ -104,6 +104,12 @@ def encode_record(x, y, flags):
     return bytes(bytearray([b0, b1, b2]))
 
 
+def write_extended_line(f, line):
+    """Writes the line unless the fixed size header has no room for it."""
+    if f.tell() + len(line.encode("utf8")) < DSTHEADERSIZE:
+        write_string_utf8(f, line)
+
+
 def write(pattern, f, settings=None):
     extended_header = False
     trim_at = 3
@@ -117,7 +123,7 @@ def write(pattern, f, settings=None):
         trim_at = settings.get("trim_at", trim_at)
     bounds = pattern.bounds()
 
-    name = pattern.get_metadata("name", "Untitled")
+    name = fit_utf8("%s" % pattern.get_metadata("name", "Untitled"), 0x100)
 
     write_string_utf8(f, "LA:%-16s\r" % name)
     write_string_utf8(f, "ST:%7d\r" % pattern.count_stitches())
@@ -147,13 +153,13 @@ def write(pattern, f, settings=None):
     if extended_header:
         author = pattern.get_metadata("author")
         if author is not None:
-            write_string_utf8(f, "AU:%s\r" % author)
+            write_extended_line(f, "AU:%s\r" % author)
         meta_copyright = pattern.get_metadata("copyright")
         if meta_copyright is not None:
-            write_string_utf8(f, "CP:%s\r" % meta_copyright)
+            write_extended_line(f, "CP:%s\r" % meta_copyright)
         if len(pattern.threadlist) > 0:
             for thread in pattern.threadlist:
-                write_string_utf8(
+                write_extended_line(
                     f,
                     "TC:%s,%s,%s\r"
                     % (thread.hex_color(), thread.description, thread.catalog_number),
-- 
2.43.0


From deda9a5a94eec16b95f1856c5bd93daa01c2aa7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:22 +0000
Subject: [PATCH 11/25] fix: count bytes, not characters, in text length
 prefixes

PEC, PES, VP3 and INF text with non-ASCII characters, or longer than its
prefix can count, shifted everything that follows it in the file.
---
 pyembroidery/InfWriter.py |  6 ++++--
 pyembroidery/PecWriter.py |  3 ++-
 pyembroidery/PesWriter.py |  6 +++---
 pyembroidery/Vp3Writer.py | 10 +++-------
 4 files changed, 12 insertions(+), 13 deletions(-)

diff --git a/pyembroidery/InfWriter.py b/pyembroidery/InfWriter.py
index b5ebf49..6d02f06 100644
--- a/pyembroidery/InfWriter.py
+++ b/pyembroidery/InfWriter.py
@@ -1,4 +1,4 @@
-from .WriteHelper import write_int_8, write_int_16be, write_int_32be, write_string_utf8
+from .WriteHelper import fit_utf8, write_int_8, write_int_16be, write_int_32be, write_string_utf8
 
 ENCODE = False
 
@@ -25,8 +25,10 @@ def write(pattern, f, settings=None):
         chart = thread.chart
         if chart is None:
             chart = "Unknown"
+        details = fit_utf8(details, 0x7000)
+        chart = fit_utf8(chart, 0x7000)
         write_int_16be(
-            f, 11 + len(details) + len(chart)
+            f, 11 + len(details.encode("utf8")) + len(chart.encode("utf8"))
         )  # 2 + 2 + 1 + 1 + 1 + 2 + d + 1 + c + 1 = 11 + d + c
         write_int_16be(f, index)  # record index
         index += 1
diff --git a/pyembroidery/PecWriter.py b/pyembroidery/PecWriter.py
index 3feae2b..2278f6b 100644
--- a/pyembroidery/PecWriter.py
+++ b/pyembroidery/PecWriter.py
@@ -3,6 +3,7 @@ from .EmbThread import build_unique_palette
 from .EmbThreadPec import get_thread_set
 from .PecGraphics import draw_scaled, get_blank
 from .WriteHelper import (
+    fit_utf8,
     write_int_8,
     write_int_16le,
     write_int_24le,
@@ -45,7 +46,7 @@ def write_pec(pattern, f, threadlist=None):
 
 def write_pec_header(pattern, f, threadlist):
     name = pattern.get_metadata("name", "Untitled")
-    write_string_utf8(f, "LA:%-16s\r" % name[:8])
+    write_string_utf8(f, "LA:%s\r" % fit_utf8(name[:8], 16, pad=True))
     f.write(b"\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\x20\xFF\x00")
     write_int_8(f, int(PEC_ICON_WIDTH / 8))  # PEC BYTE STRIDE
     write_int_8(f, int(PEC_ICON_HEIGHT))  # PEC ICON HEIGHT
diff --git a/pyembroidery/PesWriter.py b/pyembroidery/PesWriter.py
index 7a48c58..5fe4011 100644
--- a/pyembroidery/PesWriter.py
+++ b/pyembroidery/PesWriter.py
@@ -2,6 +2,7 @@ from .EmbConstant import *
 from .EmbThreadPec import get_thread_set
 from .PecWriter import write_pec
 from .WriteHelper import (
+    fit_utf8,
     write_float_32le,
     write_int_8,
     write_int_16le,
@@ -219,9 +220,8 @@ def write_pes_string_8(f, string):
     if string is None:
         write_int_8(f, 0)
         return
-    if len(string) > 255:
-        string = string[:255]
-    write_int_8(f, len(string))
+    string = fit_utf8(string, 255)
+    write_int_8(f, len(string.encode("utf8")))
     write_string_utf8(f, string)
 
 
diff --git a/pyembroidery/Vp3Writer.py b/pyembroidery/Vp3Writer.py
index 43e62fd..549e547 100644
--- a/pyembroidery/Vp3Writer.py
+++ b/pyembroidery/Vp3Writer.py
@@ -4,7 +4,7 @@ from .WriteHelper import (
     write_int_16be,
     write_int_24be,
     write_int_32be,
-    write_string,
+    fit_utf8,
     write_string_utf8,
 )
 
@@ -18,15 +18,11 @@ MAX_STITCH_DISTANCE = 255
 
 
 def vp3_write_string_8(stream, string):
-    write_int_16be(stream, len(string))
-    write_string_utf8(stream, string)
-    # vp3_write_length_and_bytes(stream, bytestring)
+    vp3_write_length_and_bytes(stream, fit_utf8(string, 0xFFFF).encode("utf8"))
 
 
 def vp3_write_string_16(stream, string):
-    write_int_16be(stream, len(string) * 2)
-    write_string(stream, string, "UTF-16BE")
-    # vp3_write_length_and_bytes(stream, bytestring)
+    vp3_write_length_and_bytes(stream, string.encode("UTF-16BE"))
 
 
 def vp3_write_length_and_bytes(stream, bytestring):
-- 
2.43.0


From b63800bab8067a74e856f59224d57ef3da67be0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:54 +0000
Subject: [PATCH 12/25] fix: expand what compress wrote, whatever its length

The block size was written in the wrong byte order and wrapped at 65536, so
most lengths from 256 on expanded to garbage, and the expander could return
more than the requested size.
---
 pyembroidery/EmbCompress.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/pyembroidery/EmbCompress.py b/pyembroidery/EmbCompress.py
index cddfc91..34366e7 100644
--- a/pyembroidery/EmbCompress.py
+++ b/pyembroidery/EmbCompress.py
@@ -4,11 +4,15 @@ def expand(data, uncompressed_size=None):
 
 
 def compress(data):
-    size = len(data)
-    return (
-        bytearray([(size >> 0) & 0xFF, (size >> 8) & 0xFF, 0x02, 0xA0, 0x01, 0xFE])
-        + data
-    )
+    compressed = bytearray()
+    for start in range(0, len(data), 0xFFFF):  # The block size is 16 bit.
+        block = data[start : start + 0xFFFF]
+        size = len(block)
+        compressed += bytearray(
+            [(size >> 8) & 0xFF, (size >> 0) & 0xFF, 0x02, 0xA0, 0x01, 0xFE]
+        )
+        compressed += block
+    return compressed
 
 
 class Huffman:
@@ -178,7 +182,7 @@ class EmbCompress:
         self.block_elements = -1
         bits_total = len(input_data) * 8
         while bits_total > self.bit_position and (
-            uncompressed_size is None or len(output_data) <= uncompressed_size
+            uncompressed_size is None or len(output_data) < uncompressed_size
         ):
             character = self.get_token()
             if character <= 255:  # literal.
@@ -196,4 +200,4 @@ class EmbCompress:
                     # Will read & write the same data at some point.
                     for i in range(position, position + length):
                         output_data.append(output_data[i])
-        return output_data
+        return output_data[:uncompressed_size]
-- 
2.43.0


From cb9fab6f5e7001f5b79e3d8fac6b4e4e79f0c299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:27 +0000
Subject: [PATCH 13/25] fix: read back every command written to CSV and JSON

The sequin contingencies, NO_COMMAND and undefined commands were written as
UNKNOWN, which neither reader accepted.
---
 pyembroidery/CsvReader.py    | 6 +++++-
 pyembroidery/EmbFunctions.py | 8 ++++++++
 pyembroidery/JsonReader.py   | 2 ++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/CsvReader.py b/pyembroidery/CsvReader.py
index 4cf33d3..11fe4ef 100644
--- a/pyembroidery/CsvReader.py
+++ b/pyembroidery/CsvReader.py
@@ -13,7 +13,11 @@ def read(f, out, settings=None):
             continue
         if "*" in row[0]:
             split = row[2].split(" ")
-            command = command_dict[split[0]]
+            if split[0] == "UNKNOWN":
+                command = int(split[1])
+                split = split[:1]
+            else:
+                command = command_dict[split[0]]
             for sp in split[1:]:
                 if sp[0] == "n":
                     needle = int(sp[1:])
diff --git a/pyembroidery/EmbFunctions.py b/pyembroidery/EmbFunctions.py
index f535b4e..9485c38 100644
--- a/pyembroidery/EmbFunctions.py
+++ b/pyembroidery/EmbFunctions.py
@@ -81,6 +81,10 @@ def get_command_dictionary():
         "CONTINGENCY_LONG_STITCH_NONE": CONTINGENCY_LONG_STITCH_NONE,
         "CONTINGENCY_LONG_STITCH_JUMP_NEEDLE": CONTINGENCY_LONG_STITCH_JUMP_NEEDLE,
         "CONTINGENCY_LONG_STITCH_SEW_TO": CONTINGENCY_LONG_STITCH_SEW_TO,
+        "CONTINGENCY_SEQUIN_UTILIZE": CONTINGENCY_SEQUIN_UTILIZE,
+        "CONTINGENCY_SEQUIN_JUMP": CONTINGENCY_SEQUIN_JUMP,
+        "CONTINGENCY_SEQUIN_STITCH": CONTINGENCY_SEQUIN_STITCH,
+        "CONTINGENCY_SEQUIN_REMOVE": CONTINGENCY_SEQUIN_REMOVE,
     }
 
 
@@ -124,4 +128,8 @@ def get_common_name_dictionary():
         CONTINGENCY_LONG_STITCH_NONE: "CONTINGENCY_LONG_STITCH_NONE",
         CONTINGENCY_LONG_STITCH_JUMP_NEEDLE: "CONTINGENCY_LONG_STITCH_JUMP_NEEDLE",
         CONTINGENCY_LONG_STITCH_SEW_TO: "CONTINGENCY_LONG_STITCH_SEW_TO",
+        CONTINGENCY_SEQUIN_UTILIZE: "CONTINGENCY_SEQUIN_UTILIZE",
+        CONTINGENCY_SEQUIN_JUMP: "CONTINGENCY_SEQUIN_JUMP",
+        CONTINGENCY_SEQUIN_STITCH: "CONTINGENCY_SEQUIN_STITCH",
+        CONTINGENCY_SEQUIN_REMOVE: "CONTINGENCY_SEQUIN_REMOVE",
     }
diff --git a/pyembroidery/JsonReader.py b/pyembroidery/JsonReader.py
index f0ba0d9..ef751bc 100644
--- a/pyembroidery/JsonReader.py
+++ b/pyembroidery/JsonReader.py
@@ -4,6 +4,8 @@ from .EmbThread import EmbThread
 
 def decoded_command(command_dict, name):
     split = name.split(" ")
+    if split[0] == "UNKNOWN":
+        return int(split[1])
     command = command_dict[split[0]]
     for sp in split[1:]:
         if sp[0] == "n":
-- 
2.43.0


From e54dd28e5b57ecb9ee5c30558e82fd9193ec6397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:31 +0000
Subject: [PATCH 14/25] fix: keep quotes, line breaks and non-ASCII text in CSV
 files

Quotes were not escaped, carriage returns were rewritten on reading, and
files written as utf8 were read in the locale's encoding.
---
 pyembroidery/CsvWriter.py  | 2 +-
 pyembroidery/EmbPattern.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/CsvWriter.py b/pyembroidery/CsvWriter.py
index 05e0d23..fb11030 100644
--- a/pyembroidery/CsvWriter.py
+++ b/pyembroidery/CsvWriter.py
@@ -14,7 +14,7 @@ def csv(f, values):
     for v in values:
         if len(string) > 0:
             string += ","
-        string += '"%s"' % v
+        string += '"%s"' % str(v).replace('"', '""')
     write_string_utf8(f, string + "\n")
 
 
diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 3388f91..4e26f26 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -1481,7 +1481,7 @@ class EmbPattern:
             except AttributeError:
                 pass
             if text_mode:
-                with open(f, "r") as stream:
+                with open(f, "r", encoding="utf8", newline="") as stream:
                     reader.read(stream, pattern, settings)
             else:
                 with open(f, "rb") as stream:
-- 
2.43.0


From 0a3cb122e856294e3c23fc7aac1b446121c0accd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:32:35 +0000
Subject: [PATCH 15/25] fix: keep every thread field in CSV files

Absent fields were read back as the text 'None', the chart was not written,
and the details and weight were dropped when read.
---
 pyembroidery/CsvReader.py | 7 +++++++
 pyembroidery/CsvWriter.py | 4 ++++
 pyembroidery/EmbThread.py | 6 ++++++
 3 files changed, 17 insertions(+)

diff --git a/pyembroidery/CsvReader.py b/pyembroidery/CsvReader.py
index 11fe4ef..41ef360 100644
--- a/pyembroidery/CsvReader.py
+++ b/pyembroidery/CsvReader.py
@@ -76,4 +76,11 @@ def read(f, out, settings=None):
                     thread_add["weight"] = row[7]
                 except IndexError:
                     pass
+                try:
+                    thread_add["chart"] = row[8]
+                except IndexError:
+                    pass
+                for name in list(thread_add):
+                    if thread_add[name] == "":
+                        del thread_add[name]  # Absent.
             out.add_thread(thread_add)
diff --git a/pyembroidery/CsvWriter.py b/pyembroidery/CsvWriter.py
index fb11030..e8a8ac9 100644
--- a/pyembroidery/CsvWriter.py
+++ b/pyembroidery/CsvWriter.py
@@ -14,6 +14,8 @@ def csv(f, values):
     for v in values:
         if len(string) > 0:
             string += ","
+        if v is None:
+            v = ""
         string += '"%s"' % str(v).replace('"', '""')
     write_string_utf8(f, string + "\n")
 
@@ -95,6 +97,7 @@ def write_threads(pattern, f):
                 "[CATALOG_NUMBER]",
                 "[DETAILS]",
                 "[WEIGHT]",
+                "[CHART]",
             ),
         )
         for i, thread in enumerate(pattern.threadlist):
@@ -109,6 +112,7 @@ def write_threads(pattern, f):
                     thread.catalog_number,
                     thread.details,
                     thread.weight,
+                    thread.chart,
                 ),
             )
         write_string_utf8(f, "\n")
diff --git a/pyembroidery/EmbThread.py b/pyembroidery/EmbThread.py
index 995789d..af445b5 100644
--- a/pyembroidery/EmbThread.py
+++ b/pyembroidery/EmbThread.py
@@ -251,6 +251,12 @@ class EmbThread:
                 self.catalog_number = thread["id"]
             if "catalog" in thread:
                 self.catalog_number = thread["catalog"]
+            if "details" in thread:
+                self.details = thread["details"]
+            if "chart" in thread:
+                self.chart = thread["chart"]
+            if "weight" in thread:
+                self.weight = thread["weight"]
         else:
             try:
                 if isinstance(thread, basestring):
-- 
2.43.0


From e19c9edce9a6ad5b389e7b8d3f002322cec63aae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:29 +0000
Subject: [PATCH 16/25] fix: start every VP3 colour block where it was written

Blocks starting on either axis through the origin were read at the end of
the block before, and the truncated center moved blocks by up to two units.
---
 pyembroidery/Vp3Reader.py | 2 +-
 pyembroidery/Vp3Writer.py | 9 +++++----
 2 files changed, 6 insertions(+), 5 deletions(-)

diff --git a/pyembroidery/Vp3Reader.py b/pyembroidery/Vp3Reader.py
index 3f973f6..3a95357 100644
--- a/pyembroidery/Vp3Reader.py
+++ b/pyembroidery/Vp3Reader.py
@@ -76,7 +76,7 @@ def vp3_read_colorblock(f, out, center_x, center_y):
     start_position_y = -(signed32(read_int_32be(f)) / 100)
     abs_x = start_position_x + center_x
     abs_y = start_position_y + center_y
-    if abs_x != 0 and abs_y != 0:
+    if (abs_x, abs_y) != (0, 0) or (out._previousX, out._previousY) != (0, 0):
         out.move_abs(abs_x, abs_y)
     thread = vp3_read_thread(f)
     out.add_thread(thread)
diff --git a/pyembroidery/Vp3Writer.py b/pyembroidery/Vp3Writer.py
index 549e547..6b284df 100644
--- a/pyembroidery/Vp3Writer.py
+++ b/pyembroidery/Vp3Writer.py
@@ -116,8 +116,9 @@ def write_design_block(f, extends, colorblocks):
     height = extends[3] - extends[1]
     half_width = width / 2
     half_height = height / 2
-    center_x = extends[2] - half_width
-    center_y = extends[3] - half_height
+    # Whole units, as the color blocks start relative to the written center.
+    center_x = round(extends[2] - half_width)
+    center_y = round(extends[3] - half_height)
 
     write_int_32be(f, int(center_x) * 100)  # initial x
     write_int_32be(f, int(center_y) * -100)  # initial y
@@ -177,8 +178,8 @@ def write_vp3_colorblock(f, first, center_x, center_y, stitches, thread):
         last_pos_y = 0
     start_position_from_center_x = first_pos_x - center_x
     start_position_from_center_y = -(first_pos_y - center_y)
-    write_int_32be(f, int(start_position_from_center_x) * 100)
-    write_int_32be(f, int(start_position_from_center_y) * 100)
+    write_int_32be(f, int(round(start_position_from_center_x)) * 100)
+    write_int_32be(f, int(round(start_position_from_center_y)) * 100)
 
     vp3_write_thread(f, thread)
 
-- 
2.43.0


From 59d4311245a74e9341dc3c4041ba2f91daf5290d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:42 +0000
Subject: [PATCH 17/25] fix: keep commands between jumps when clipping trims

---
 pyembroidery/EmbPattern.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/EmbPattern.py b/pyembroidery/EmbPattern.py
index 4e26f26..f718302 100644
--- a/pyembroidery/EmbPattern.py
+++ b/pyembroidery/EmbPattern.py
@@ -769,6 +769,8 @@ class EmbPattern:
             elif command == COLOR_CHANGE or command == NEEDLE_SET or command == TRIM:
                 trimmed = True
                 jumping = False
+            elif command != JUMP:
+                jumping = False  # a run of jumps has nothing but jumps in it.
             if command == JUMP:
                 if not jumping:
                     jump_dx = 0
-- 
2.43.0


From 8f17291398a000d3e26f5a21c8200343fdac160e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:02 +0000
Subject: [PATCH 18/25] fix: assign threads and needles to colour blocks in
 their order

---
 pyembroidery/EmbEncoder.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index 90ae252..80d6233 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -166,7 +166,7 @@ class Transcoder:
         needle_limit = self.needle_count
         thread_index = 0
         needle_index = 1
-        for order, s in change_sequence.items():
+        for order, s in sorted(change_sequence.items()):
             if s[0] is None:
                 s[0] = self.thread_change_command
             if s[1] is None:
-- 
2.43.0


From 4e7fd6d8e7b4d1e4a09fab3a04de27df9f92e9de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:06 +0000
Subject: [PATCH 19/25] fix: keep thread changes aligned after colour breaks
 before the start

---
 pyembroidery/EmbEncoder.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index 80d6233..a48d1a7 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -118,6 +118,8 @@ class Transcoder:
                 yield flags, thread, needle, order, None
             elif flags == NEEDLE_SET or flags == COLOR_CHANGE or flags == COLOR_BREAK:
                 yield flags, thread, needle, order, current_index
+                if flags == COLOR_BREAK and current_index == 0:
+                    continue  # Breaks before the start of the first block make no change.
                 current_index += 1
 
     def build_thread_change_sequence(self):
-- 
2.43.0


From 98c4912a7b92f66d057eba28a411399dba17f2aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:37:10 +0000
Subject: [PATCH 20/25] fix: recognise stitches that carry thread flags when
 looking ahead

---
 pyembroidery/EmbEncoder.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/pyembroidery/EmbEncoder.py b/pyembroidery/EmbEncoder.py
index a48d1a7..03867aa 100644
--- a/pyembroidery/EmbEncoder.py
+++ b/pyembroidery/EmbEncoder.py
@@ -381,7 +381,7 @@ class Transcoder:
         source = self.source_pattern.stitches
         for pos in range(self.position, len(source)):
             stitch = source[pos]
-            flags = stitch[2]
+            flags = stitch[2] & COMMAND_MASK
             if flags == STITCH:
                 return True
             elif flags == NEEDLE_AT:
@@ -431,7 +431,7 @@ class Transcoder:
                 b = self.matrix.point_in_matrix_space(
                     self.source_pattern.stitches[self.position - 1]
                 )
-                flags = b[2]
+                flags = b[2] & COMMAND_MASK
                 if (
                     flags == STITCH
                     or flags == NEEDLE_AT
@@ -450,7 +450,7 @@ class Transcoder:
                 b = self.matrix.point_in_matrix_space(
                     self.source_pattern.stitches[self.position + 1]
                 )
-                flags = b[2]
+                flags = b[2] & COMMAND_MASK
                 if (
                     flags == STITCH
                     or flags == NEEDLE_AT
-- 
2.43.0


From 1940b7bf2705fe77b1afbefe17be00387c0c1c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:38 +0000
Subject: [PATCH 21/25] fix: keep the displacement before speed commands in VP3
 files

---
 pyembroidery/Vp3Writer.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pyembroidery/Vp3Writer.py b/pyembroidery/Vp3Writer.py
index 6b284df..cb24964 100644
--- a/pyembroidery/Vp3Writer.py
+++ b/pyembroidery/Vp3Writer.py
@@ -249,6 +249,9 @@ def write_stitches_block(f, stitches, first_pos_x, first_pos_y):
             # VP3 has no jump commands. These are skipped.
             # It moves to the relevant location without needing to block the needlebar.
             continue
+        elif flags != STITCH:
+            # Not written, so its displacement is left for the next stitch.
+            continue
         dx = int(x - last_x)
         dy = int(y - last_y)
         last_x += dx
-- 
2.43.0


From 3a7f77578b586ff7555b3dc5cede0e05e721ec70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:52 +0000
Subject: [PATCH 22/25] fix: write no DST record for speed commands

---
 pyembroidery/DstWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/DstWriter.py b/pyembroidery/DstWriter.py
index e44ce52..3c7af09 100644
--- a/pyembroidery/DstWriter.py
+++ b/pyembroidery/DstWriter.py
@@ -175,6 +175,8 @@ def write(pattern, f, settings=None):
         x = stitch[0]
         y = stitch[1]
         data = stitch[2] & COMMAND_MASK
+        if data == SLOW or data == FAST:
+            continue  # DST has no speed records, an empty record is a stitch.
         dx = int(round(x - xx))
         dy = int(round(y - yy))
 
-- 
2.43.0


From 4f574d1e758f02ba1671d0dd71d49b8d4c6cc25e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:55 +0000
Subject: [PATCH 23/25] fix: write PES version 6 files of designs that sew
 nothing

---
 pyembroidery/PesWriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/pyembroidery/PesWriter.py b/pyembroidery/PesWriter.py
index 5fe4011..e70f6c2 100644
--- a/pyembroidery/PesWriter.py
+++ b/pyembroidery/PesWriter.py
@@ -360,6 +360,8 @@ def write_pes_embsewseg_segments(f, pattern, chart, left, bottom, cx, cy):
             write_int_16le(f, 0x8003)  # section end.
         segments = segs[0]
         color_code = segs[1]
+        if color_code is None:
+            color_code = 0  # There are no threads, as nothing is sewn.
         flag = segs[2]
 
         if previous_color_code != color_code:
-- 
2.43.0


From 614284f1f8bad1ccf5f744a31b71645da42aeae1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:45 +0000
Subject: [PATCH 24/25] fix: list the initial colour of JEF files that start
 with a colour change

---
 pyembroidery/JefWriter.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/pyembroidery/JefWriter.py b/pyembroidery/JefWriter.py
index b108247..0c9a2a2 100644
--- a/pyembroidery/JefWriter.py
+++ b/pyembroidery/JefWriter.py
@@ -39,8 +39,8 @@ def write(pattern, f, settings=None):
     color_toggled = False
     color_count = 0  # Color and Stop count.
     index_in_threadlist = 0
-    for stitch in pattern.stitches:
-        # Iterate all stitches.
+    for stitch in [[0, 0, STITCH]] + pattern.stitches:
+        # Iterate all stitches, the initial color is set before any of them.
         flags = stitch[2] & COMMAND_MASK
         if flags == COLOR_CHANGE or index_in_threadlist == 0:
             # If color change *or* initial color unset.
-- 
2.43.0


From ffeba16efc245e4a439f8f2c7a1e697b7a09f85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:04:03 +0000
Subject: [PATCH 25/25] fix: read DST headers whose text looks like an
 incomplete thread color

---
 pyembroidery/DstReader.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/pyembroidery/DstReader.py b/pyembroidery/DstReader.py
index 31bca02..f8a4bf1 100644
--- a/pyembroidery/DstReader.py
+++ b/pyembroidery/DstReader.py
@@ -41,7 +41,10 @@ def process_header_info(out, prefix, value):
         out.metadata("copyright", value)
     elif prefix == "TC":
         values = [x.strip() for x in value.split(",")]
-        out.add_thread({"hex": values[0], "description": values[1], "catalog": values[2]})
+        try:
+            out.add_thread({"hex": values[0], "description": values[1], "catalog": values[2]})
+        except (IndexError, ValueError):
+            pass  # Other text that merely starts like a thread color.
     else:
         out.metadata(prefix, value)
 
-- 
2.43.0

