From a92c6627bd3d2e57e805429130df286597a40b7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:10 +0000
Subject: [PATCH 01/30] fix: raise instead of inventing data when a stream ends
 or delivers short reads

---
 dustmaker/bitio.py | 25 +++++++++++++++++++++++--
 1 file changed, 23 insertions(+), 2 deletions(-)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 534cc32..5c1f0cf 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -94,6 +94,21 @@ class BitIO:
 class BitIOReader(BitIO):
     """Bit reader wrapper for a data stream"""
 
+    def _read_exact(self, num: int) -> bytes:
+        """Read `num` bytes from :attr:`data`. Unbuffered streams may deliver
+        them in several pieces.
+
+        Raises:
+            EOFError: If :attr:`data` ends before `num` bytes could be read.
+        """
+        buf = self.data.read(num)
+        while len(buf) < num:
+            part = self.data.read(num - len(buf))
+            if not part:
+                raise EOFError("unexpected end of stream")
+            buf += part
+        return buf
+
     def read(self, bits: int, signed: bool = False) -> int:
         """Reads in the next `bits` bits into an integer in little endian order.
 
@@ -101,6 +116,9 @@ class BitIOReader(BitIO):
             bits (int): The number of bits to read in
             signed (bool): Wether the most significant bit should be interpretted
                 as a sign bit.
+
+        Raises:
+            EOFError: If the stream ends before `bits` bits could be read.
         """
         bytes_needed = (bits - self._bits_left + 7) >> 3
         if self._bits == -1:
@@ -116,7 +134,7 @@ class BitIOReader(BitIO):
             return result
 
         # Read in needed data from underlying stream.
-        new_bytes = self.data.read(bytes_needed)
+        new_bytes = self._read_exact(bytes_needed)
 
         if self._bits == -1:
             self._bits = new_bytes[0] >> (8 - self._bits_left)
@@ -142,9 +160,12 @@ class BitIOReader(BitIO):
 
         Arguments:
             num (int): The number of bytes to extract from the bit stream.
+
+        Raises:
+            EOFError: If the stream ends before `num` bytes could be read.
         """
         if self._bits_left == 0:
-            data = self.data.read(num)
+            data = self._read_exact(num)
             self._tell += len(data) << 3
             return data
         return bytes(self.read(8) for _ in range(num))
-- 
2.43.0


From 428ca0c41361d564826f50bc075da2826e68493d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:29 +0000
Subject: [PATCH 02/30] fix: sign-extend reads served entirely from already
 fetched bits

---
 dustmaker/bitio.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 5c1f0cf..5678fb9 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -131,6 +131,8 @@ class BitIOReader(BitIO):
             self._bits = self._bits >> bits
             self._bits_left -= bits
             self._tell += bits
+            if signed and (result & (1 << bits >> 1)):
+                result -= 1 << bits
             return result
 
         # Read in needed data from underlying stream.
-- 
2.43.0


From 6a5c467745feda1a8140b4a63e96a4c886555b2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:30 +0000
Subject: [PATCH 03/30] fix: align after a seek into the middle of a byte moves
 the stream as well

---
 dustmaker/bitio.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 5678fb9..892f232 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -56,6 +56,9 @@ class BitIO:
         """Seeks the stream forward to the nearest byte boundary. This does
         not require :attr:`data` to support seek itself.
         """
+        if self._bits == -1:
+            # We did a seek mid-byte and need to step over the lead byte still.
+            self.data.seek((self._tell + self._bits_left) // 8)
         self._tell += self._bits_left
         self._bits = 0
         self._bits_left = 0
-- 
2.43.0


From 47d515c15ff9844a7ec0c81989d7e8955e71ede3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:30 +0000
Subject: [PATCH 04/30] fix: flush no longer writes the trailing bits again on
 the next write, seek or close

---
 dustmaker/bitio.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 892f232..cc37aea 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -261,6 +261,7 @@ class BitIOWriter(BitIO):
         """
         if self._bits_left != 0 and self._bits != -1:
             self.data.write(bytes((self._bits,)))
+            super().align()
 
     def align(self) -> None:
         """Seeks the stream forward to the nearest byte boundary. This does
-- 
2.43.0


From f51b679d964e6ebcb5730b5668b67c71def9432a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:30 +0000
Subject: [PATCH 05/30] fix: a released writer flushes its buffer to a raw
 stream and leaves that stream open

---
 dustmaker/bitio.py | 21 ++++++++++++++++++++-
 1 file changed, 20 insertions(+), 1 deletion(-)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index cc37aea..eff79b8 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -176,12 +176,28 @@ class BitIOReader(BitIO):
         return bytes(self.read(8) for _ in range(num))
 
 
+class _RawBuffer(io.BufferedWriter):
+    """Write buffer around an unbuffered stream that can be handed back to its
+    owner."""
+
+    def close(self) -> None:
+        """Close the unbuffered stream unless it has been handed back."""
+        if not getattr(self, "handed_back", False):
+            super().close()
+
+    def hand_back(self) -> None:
+        """Flush the buffer and separate it from the unbuffered stream. From
+        here on (even if the flush fails) this will not close that stream."""
+        self.handed_back = True
+        self.detach()
+
+
 class BitIOWriter(BitIO):
     """Bit writer wrapper for a data stream."""
 
     def __init__(self, data: BinaryIO, *, noclose: bool = False) -> None:
         if not isinstance(data, io.BufferedIOBase):
-            data = io.BufferedWriter(data)  # type: ignore
+            data = _RawBuffer(data)  # type: ignore
         super().__init__(data, noclose=noclose)
 
     def write(self, bits: int, val: int) -> None:
@@ -247,6 +263,9 @@ class BitIOWriter(BitIO):
         try:
             self.flush()
         finally:
+            if self._noclose and isinstance(self.data, _RawBuffer):
+                buf, self.data = self.data, self.data.raw  # type: ignore
+                buf.hand_back()
             super().close()
 
     def flush(self) -> None:
-- 
2.43.0


From eb114e2087c0e77b1dc377086a616994e388678b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:22 +0000
Subject: [PATCH 06/30] fix: command line tools no longer destroy the target
 file when a run fails or is cut short

---
 dustmaker/cmd/common.py       | 36 ++++++++++++++++++++++++++++++++++-
 dustmaker/cmd/save_convert.py |  7 ++++---
 dustmaker/cmd/thumbnail.py    |  9 +++++----
 dustmaker/cmd/transform.py    |  7 ++++---
 dustmaker/cmd/variables.py    | 17 +++++++++--------
 5 files changed, 57 insertions(+), 19 deletions(-)

diff --git a/dustmaker/cmd/common.py b/dustmaker/cmd/common.py
index 37b51a3..66862be 100644
--- a/dustmaker/cmd/common.py
+++ b/dustmaker/cmd/common.py
@@ -2,7 +2,41 @@
 
 import abc
 import argparse
-from typing import Type
+import contextlib
+import os
+import shutil
+from typing import BinaryIO, Iterator, Type
+
+
+@contextlib.contextmanager
+def atomic_output(path: str) -> Iterator[BinaryIO]:
+    """Open `path` for writing such that it only gets the new content once that
+    has been written completely. If anything goes wrong before `path` is left as
+    it was.
+
+    Arguments:
+        path (str): path of the file to write
+    """
+    path = os.path.realpath(path)
+    if os.path.exists(path) and not os.path.isfile(path):
+        # There is nothing to preserve in devices and pipes.
+        with open(path, "wb") as fout:
+            yield fout
+        return
+
+    tmp_path = f"{path}.{os.getpid()}.tmp"
+    try:
+        with open(tmp_path, "wb") as fout:
+            yield fout
+            fout.flush()
+            os.fsync(fout.fileno())
+        if os.path.exists(path):
+            shutil.copymode(path, tmp_path)
+        os.replace(tmp_path, path)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.unlink(tmp_path)
+        raise
 
 
 class CliUtility(metaclass=abc.ABCMeta):
diff --git a/dustmaker/cmd/save_convert.py b/dustmaker/cmd/save_convert.py
index fe0ed80..17f9fe9 100755
--- a/dustmaker/cmd/save_convert.py
+++ b/dustmaker/cmd/save_convert.py
@@ -7,7 +7,7 @@ import sys
 from typing import Any
 
 from dustmaker import DFReader, DFWriter
-from dustmaker.cmd.common import CliUtility, run_utility
+from dustmaker.cmd.common import CliUtility, atomic_output, run_utility
 from dustmaker.variable import (
     VariableArray,
     VariableBool,
@@ -173,8 +173,9 @@ class SaveConvert(CliUtility):
         if not isinstance(stats, dict):
             raise ValueError("found unexpected data in stats0")
         stats_new = migrate_stats(stats)
-        with DFWriter(open(args.stats1, "wb")) as writer:
-            writer.write_var_file(self.HEADER, stats_new)
+        with atomic_output(args.stats1) as fout:
+            with DFWriter(fout, noclose=True) as writer:
+                writer.write_var_file(self.HEADER, stats_new)
         return 0
 
 
diff --git a/dustmaker/cmd/thumbnail.py b/dustmaker/cmd/thumbnail.py
index bdb487d..f9a4788 100755
--- a/dustmaker/cmd/thumbnail.py
+++ b/dustmaker/cmd/thumbnail.py
@@ -8,7 +8,7 @@ import os
 import sys
 
 from dustmaker import DFReader, DFWriter
-from dustmaker.cmd.common import CliUtility, run_utility
+from dustmaker.cmd.common import CliUtility, atomic_output, run_utility
 from dustmaker.variable import VariableBool
 
 
@@ -71,7 +71,7 @@ class Thumbnail(CliUtility):
                 print("path already exists, use --force to ignore")
                 return 1
 
-            with open(args.image, "wb") as fout:
+            with atomic_output(args.image) as fout:
                 fout.write(level.sshot)
 
             return 0
@@ -97,8 +97,9 @@ class Thumbnail(CliUtility):
                 level.sshot = fimg.read()
 
         level.variables["icon_taken"] = VariableBool(True)
-        with DFWriter(open(args.level, "wb")) as writer:
-            writer.write_level_ex(level, region_offsets, region_data)
+        with atomic_output(args.level) as fout:
+            with DFWriter(fout, noclose=True) as writer:
+                writer.write_level_ex(level, region_offsets, region_data)
 
         return 0
 
diff --git a/dustmaker/cmd/transform.py b/dustmaker/cmd/transform.py
index 96fb739..29ebda7 100755
--- a/dustmaker/cmd/transform.py
+++ b/dustmaker/cmd/transform.py
@@ -6,7 +6,7 @@ import argparse
 import sys
 
 from dustmaker import DFReader, DFWriter
-from dustmaker.cmd.common import CliUtility, run_utility
+from dustmaker.cmd.common import CliUtility, atomic_output, run_utility
 from dustmaker.level import LevelType
 from dustmaker.transform import TxMatrix
 
@@ -92,8 +92,9 @@ class Transform(CliUtility):
         else:
             level.transform(mat)
 
-        with DFWriter(open(args.output_level, "wb")) as writer:
-            writer.write_level(level)
+        with atomic_output(args.output_level) as fout:
+            with DFWriter(fout, noclose=True) as writer:
+                writer.write_level(level)
 
 
 if __name__ == "__main__":
diff --git a/dustmaker/cmd/variables.py b/dustmaker/cmd/variables.py
index 6c35489..9cab5e6 100755
--- a/dustmaker/cmd/variables.py
+++ b/dustmaker/cmd/variables.py
@@ -8,7 +8,7 @@ import sys
 from typing import Any, Dict, Tuple, Type
 
 from dustmaker import DFReader, DFWriter
-from dustmaker.cmd.common import CliUtility, run_utility
+from dustmaker.cmd.common import CliUtility, atomic_output, run_utility
 from dustmaker.variable import (
     Variable,
     VariableArray,
@@ -205,13 +205,14 @@ class Variables(CliUtility):
 
         variables = json_to_variables(jdata["schema"], jdata["vars"])
 
-        with DFWriter(open(args.object, "wb")) as writer:
-            if header == b"DF_LVL":
-                assert level and region_offsets and region_data
-                level.variables = variables.value
-                writer.write_level_ex(level, region_offsets, region_data)
-            else:
-                writer.write_var_file(header, variables.value)
+        with atomic_output(args.object) as fout:
+            with DFWriter(fout, noclose=True) as writer:
+                if header == b"DF_LVL":
+                    assert level and region_offsets and region_data
+                    level.variables = variables.value
+                    writer.write_level_ex(level, region_offsets, region_data)
+                else:
+                    writer.write_var_file(header, variables.value)
 
         return 0
 
-- 
2.43.0


From 6a970efd9b81c422cbe9e6c04cdc8b47ca2b93f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:22 +0000
Subject: [PATCH 07/30] fix: variables tool can update levels without any
 regions

---
 dustmaker/cmd/variables.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/cmd/variables.py b/dustmaker/cmd/variables.py
index 9cab5e6..b61892d 100755
--- a/dustmaker/cmd/variables.py
+++ b/dustmaker/cmd/variables.py
@@ -208,7 +208,7 @@ class Variables(CliUtility):
         with atomic_output(args.object) as fout:
             with DFWriter(fout, noclose=True) as writer:
                 if header == b"DF_LVL":
-                    assert level and region_offsets and region_data
+                    assert level and region_offsets and region_data is not None
                     level.variables = variables.value
                     writer.write_level_ex(level, region_offsets, region_data)
                 else:
-- 
2.43.0


From 21aee790a59b72d7fb7c0b314b0081e48d9ce2a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:22 +0000
Subject: [PATCH 08/30] fix: variables tool can print nested arrays

---
 dustmaker/cmd/variables.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dustmaker/cmd/variables.py b/dustmaker/cmd/variables.py
index b61892d..0b1ca28 100755
--- a/dustmaker/cmd/variables.py
+++ b/dustmaker/cmd/variables.py
@@ -54,6 +54,9 @@ def merge_schema(lhs: Any, rhs: Any) -> Any:
                 result[subkey] = merge_schema(r_subschema, subschema)
         return result
     if isinstance(lhs, list) and isinstance(rhs, list):
+        if not lhs or not rhs:
+            # Nothing is known about the elements of an empty list schema
+            return lhs or rhs
         return [merge_schema(lhs[0], rhs[0])]
     if not isinstance(lhs, str) or not isinstance(rhs, str):
         raise ValueError("unmergable schemas")
-- 
2.43.0


From 5036270890b39d18fb6b1558f26dc93cf9cad24c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:52 +0000
Subject: [PATCH 09/30] fix: calculate_max_id(reset=False), and with it saving,
 never rewinds the ID allocator

---
 dustmaker/level.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index cfd88d0..a2601ac 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -252,8 +252,7 @@ class Level:
         """
         init = 100 if reset else self._next_id - 1
 
-        # pylint: disable=nested-min-max
-        mx_id = max(max(self.props, default=init), max(self.entities, default=init))
+        mx_id = max((init, *self.props, *self.entities))
 
         if self.backdrop is not None:
             mx_id = max(mx_id, self.backdrop.calculate_max_id())
-- 
2.43.0


From 3b565d44078d66460fe22473f38467e702857b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:52 +0000
Subject: [PATCH 10/30] fix: IDs merged in from another level are not assigned
 again

---
 dustmaker/level.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index a2601ac..f596198 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -274,6 +274,8 @@ class Level:
         self.tiles.update(copy.deepcopy(other_level.tiles))
         self.props.update(copy.deepcopy(other_level.props))
         self.entities.update(copy.deepcopy(other_level.entities))
+        for id_num in (*other_level.props, *other_level.entities):
+            self._note_id(id_num)
         if self.backdrop is not None and other_level.backdrop is not None:
             self.backdrop.merge(other_level.backdrop, remap_ids=False)
 
-- 
2.43.0


From ce4d5cc731ded4ab8f9f575aaa0b8bb71709e939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:52 +0000
Subject: [PATCH 11/30] fix: matrix product uses the left factor's y offset for
 y

---
 dustmaker/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/transform.py b/dustmaker/transform.py
index c2f8891..83f4fa8 100644
--- a/dustmaker/transform.py
+++ b/dustmaker/transform.py
@@ -85,7 +85,7 @@ class TxMatrix(tuple):
                 (
                     ml[1][0] * mr[0][0] + ml[1][1] * mr[1][0],
                     ml[1][0] * mr[0][1] + ml[1][1] * mr[1][1],
-                    ml[1][0] * mr[0][2] + ml[1][1] * mr[1][2] + ml[0][2],
+                    ml[1][0] * mr[0][2] + ml[1][1] * mr[1][2] + ml[1][2],
                 ),
                 (0, 0, 1),
             )
-- 
2.43.0


From d5a903525fd2dc4b3d5e3ff7f69a15cedddf7a9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:52 +0000
Subject: [PATCH 12/30] fix: region directory is complete when a level is
 written over existing data

---
 dustmaker/dfwriter.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dustmaker/dfwriter.py b/dustmaker/dfwriter.py
index 90201b9..154e2a6 100644
--- a/dustmaker/dfwriter.py
+++ b/dustmaker/dfwriter.py
@@ -549,8 +549,9 @@ class DFWriter(BitIOWriter):
         """
         rmap = _compute_region_map(level)
         region_dir_index = self.bit_tell()
-        region_data_index = (region_dir_index + 32 * len(rmap.region_map) + 7) & ~0x7
-        self.bit_seek(region_data_index)
+        self.write(32 * len(rmap.region_map), 0)
+        self.align()
+        region_data_index = self.bit_tell()
         region_offsets = []
 
         # Write the region data
-- 
2.43.0


From dace32a4ff517cc90e40c23ee51316cc7efb06f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:52 +0000
Subject: [PATCH 13/30] fix: transform tool shifts by the requested amount when
 it also upscales

---
 dustmaker/cmd/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dustmaker/cmd/transform.py b/dustmaker/cmd/transform.py
index 29ebda7..e3d79cb 100755
--- a/dustmaker/cmd/transform.py
+++ b/dustmaker/cmd/transform.py
@@ -81,9 +81,6 @@ class Transform(CliUtility):
         if args.hflip:
             mat = TxMatrix.HFLIP * mat
 
-        # Add in the translations
-        mat = mat.translate(args.translate_x, args.translate_y)
-
         if args.upscale > 1:
             # Need dustmod level type for proper scaling of entities/props
             if level.level_type == LevelType.NORMAL:
@@ -92,6 +89,9 @@ class Transform(CliUtility):
         else:
             level.transform(mat)
 
+        # The shift comes last, it is not scaled with the level
+        level.translate(args.translate_x, args.translate_y)
+
         with atomic_output(args.output_level) as fout:
             with DFWriter(fout, noclose=True) as writer:
                 writer.write_level(level)
-- 
2.43.0


From 51d305e9735072f8c19753b0897e074dc96c7a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:37 +0000
Subject: [PATCH 14/30] fix: refuse segments larger than declared instead of
 parsing the same data repeatedly

---
 dustmaker/dfreader.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dustmaker/dfreader.py b/dustmaker/dfreader.py
index 6a754df..65b71e1 100644
--- a/dustmaker/dfreader.py
+++ b/dustmaker/dfreader.py
@@ -318,7 +318,11 @@ class DFReader(BitIOReader):
                     id_num,
                 )
 
-        self.bit_seek(start_index + segment_size * 8)
+        end_index = start_index + segment_size * 8
+        if self.bit_tell() > end_index:
+            # Going back would parse the same data again and again.
+            raise LevelParseException("segment is larger than its declared size")
+        self.bit_seek(end_index)
 
     def read_region(self, level: Level) -> None:
         """Read region data into the passed level. In most cases you should
-- 
2.43.0


From 71ce60362d27f2c537b07a0a5442c9f69838dbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:52:21 +0000
Subject: [PATCH 15/30] fix: refuse to write values that do not fit instead of
 storing different ones

---
 dustmaker/bitio.py    | 6 ++++++
 dustmaker/dfwriter.py | 3 +++
 2 files changed, 9 insertions(+)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index eff79b8..69a46ec 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -206,7 +206,13 @@ class BitIOWriter(BitIO):
         Note:
             If the last byte is partially completed it will not be written
             until the stream is closed or flushed.
+
+        Raises:
+            OverflowError: If `val` fits `bits` bits neither as an unsigned nor
+                as a signed integer.
         """
+        if val >> bits and not -(1 << bits) <= 2 * val < 0:
+            raise OverflowError(f"{val} does not fit into {bits} bits")
         if val < 0:
             val += 1 << bits
 
diff --git a/dustmaker/dfwriter.py b/dustmaker/dfwriter.py
index 154e2a6..834d9f1 100644
--- a/dustmaker/dfwriter.py
+++ b/dustmaker/dfwriter.py
@@ -403,6 +403,9 @@ class DFWriter(BitIOWriter):
 
     def _write_region(self, x: int, y: int, region: _LevelRegion) -> None:
         """Writes a level region to the output stream"""
+        if not (-0x8000 <= x < 0x8000 and -0x8000 <= y < 0x8000):
+            raise OverflowError("level extends further than can be stored")
+
         segments_io = io.BytesIO()
         with DFWriter(segments_io) as segments_writer:
             for coord, segment in sorted(region.segment_map.items()):
-- 
2.43.0


From de937e3f82405ac60d0ac5a8679926a5099c5268 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:06:12 +0000
Subject: [PATCH 16/30] fix: flips and rotations keep tiles aligned with
 entities and props

---
 dustmaker/level.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index f596198..d8f9b14 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -300,10 +300,15 @@ class Level:
             script persist data.
         """
 
+        half_size = 24 * mat.scale
+
         def _transform_tiles():
             for (layer, x, y), tile in self.tiles.items():
                 tile.transform(mat)
-                tx, ty = mat.sample(x * 48, y * 48)
+                # Flips and rotations turn other corners of the tile into its
+                # top-left one, so go by the center of the tile.
+                tx, ty = mat.sample(x * 48 + 24, y * 48 + 24)
+                tx, ty = tx - half_size, ty - half_size
 
                 yield (layer, int(round(tx / 48.0)), int(round(ty / 48.0))), tile
 
-- 
2.43.0


From edf09a699944abd31e95264397437e96ebd7380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:43 +0000
Subject: [PATCH 17/30] fix: refuse to write IDs that mark deleted props and
 entities

IDs outside 0..2^31-1 were written without an error and the object was
missing when the level was read back.
---
 dustmaker/dfwriter.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/dustmaker/dfwriter.py b/dustmaker/dfwriter.py
index 834d9f1..14cf120 100644
--- a/dustmaker/dfwriter.py
+++ b/dustmaker/dfwriter.py
@@ -268,6 +268,13 @@ class DFWriter(BitIOWriter):
 
         raise LevelParseException("unknown var type")
 
+    def _write_id(self, id_num: int) -> None:
+        """Writes a prop or entity ID to the output stream"""
+        if not 0 <= id_num < 0x80000000:
+            # Negative IDs mark deleted props and entities
+            raise OverflowError("ID cannot be stored")
+        self.write(32, id_num)
+
     def _write_segment(self, seg_x: int, seg_y: int, segment: _LevelSegment) -> None:
         """Write a segment to the output stream"""
         assert self.aligned()
@@ -325,7 +332,7 @@ class DFWriter(BitIOWriter):
 
             self.write(16, len(segment.props))
             for id_num, layer, x, y, prop in segment.props:
-                self.write(32, id_num)
+                self._write_id(id_num)
                 self.write(8, layer)
                 self.write(8, prop.layer_sub)
 
@@ -359,7 +366,7 @@ class DFWriter(BitIOWriter):
             self.write(16, len(segment.entities))
             for id_num, x, y, entity in segment.entities:
                 enemy_filth += getattr(entity, "FILTH", 0)
-                self.write(32, id_num)
+                self._write_id(id_num)
                 if entity.etype.startswith("z_") or entity.etype == "entity":
                     self.write_6bit_str("entity")
                     extra_names_writer.write_6bit_str(entity.etype)
-- 
2.43.0


From 459ae7a44cd91e42c3fce1f3d65be32e2bec10d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:18:51 +0000
Subject: [PATCH 18/30] fix: refuse to write prop scales that do not fit
 instead of storing different ones

---
 dustmaker/dfwriter.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dustmaker/dfwriter.py b/dustmaker/dfwriter.py
index 14cf120..43d09a9 100644
--- a/dustmaker/dfwriter.py
+++ b/dustmaker/dfwriter.py
@@ -337,6 +337,8 @@ class DFWriter(BitIOWriter):
                 self.write(8, prop.layer_sub)
 
                 scale_lg = int(round(log(prop.scale) / log(50.0) * 24.0)) + 32
+                if not 0 <= scale_lg < 7 * 8:
+                    raise OverflowError("prop scale cannot be stored")
                 x_scale = (scale_lg // 7) ^ 0x4
                 y_scale = (scale_lg % 7) ^ 0x4
                 x_int = int(abs(x))
-- 
2.43.0


From 4d8abef697ffd2d6286397e5187ad5572b15a692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:20:09 +0000
Subject: [PATCH 19/30] fix: tiles on layers above 20 are no longer dropped
 when a level is saved

---
 dustmaker/dfwriter.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/dustmaker/dfwriter.py b/dustmaker/dfwriter.py
index 43d09a9..0f1e103 100644
--- a/dustmaker/dfwriter.py
+++ b/dustmaker/dfwriter.py
@@ -14,7 +14,7 @@ from .bitio import BitIOWriter
 from .exceptions import LevelParseException
 from .level import Level
 from .replay import Replay
-from .tile import TileSpriteSet
+from .tile import Tile, TileSpriteSet
 from .variable import (
     Variable,
     VariableArray,
@@ -38,6 +38,12 @@ class _LevelSegment:
         self.props = []
         self.present = True
 
+    def add_tile(self, layer: int, x: int, y: int, tile: Tile) -> None:
+        """Add the tile at the given level coordinates to the segment"""
+        if not 0 <= layer < len(self.tiles):
+            raise OverflowError("tile layer cannot be stored")
+        self.tiles[layer].append((x & 0xF, y & 0xF, tile))
+
 
 class _LevelRegion:
     """Container class for region data"""
@@ -106,7 +112,7 @@ def _compute_region_map(level: Level) -> _RegionMap:
     """
     rmap = _RegionMap()
     for (layer, tx, ty), tile in level.tiles.items():
-        rmap.get_segment(tx, ty).tiles[layer].append((tx & 0xF, ty & 0xF, tile))
+        rmap.get_segment(tx, ty).add_tile(layer, tx, ty, tile)
 
     for id_num, (x, y, entity) in level.entities.items():
         rmap.get_segment(int(x / 48), int(y / 48)).entities.append(
@@ -124,7 +130,7 @@ def _compute_region_map(level: Level) -> _RegionMap:
     for (layer, x, y), tile in level.backdrop.tiles.items():
         seg = rmap.get_region(x * 16, y * 16).backdrop
         seg.present = True
-        seg.tiles[layer].append((x & 0xF, y & 0xF, tile))
+        seg.add_tile(layer, x, y, tile)
 
     for id_num, (layer, x, y, prop) in level.backdrop.props.items():
         seg = rmap.get_region(int(x / 48), int(y / 48)).backdrop
@@ -283,7 +289,7 @@ class DFWriter(BitIOWriter):
         self.bit_seek(start_index + 200)
 
         flags = 0
-        tiles = [(i, segment.tiles[i]) for i in range(21) if segment.tiles[i]]
+        tiles = [(i, layer) for i, layer in enumerate(segment.tiles) if layer]
 
         (dust_filth, enemy_filth, tile_surface, dustblock_filth) = (0, 0, 0, 0)
 
-- 
2.43.0


From 8b4f4e2d349b8f93e84d9f8979417131187c8a68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:09:36 +0000
Subject: [PATCH 20/30] fix: fog data of sublayers 21 to 24 can be addressed as
 documented

---
 dustmaker/entity.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index 683fdb1..cbda069 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -329,7 +329,7 @@ class FogTrigger(Trigger):
         assert 0 <= layer <= 20
         if sublayer is None:
             return layer
-        assert 0 <= sublayer <= 20
+        assert 0 <= sublayer <= 24
         return (sublayer + 1) * 21 + layer
 
     speed = bind_prop("fog_speed", VariableFloat, 5.0)
-- 
2.43.0


From c42daa41ebec33b1734fdd56c33889e0c9ef9eff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:50 +0000
Subject: [PATCH 21/30] fix: edge join angles are half the angle delta rounded
 down, as documented and stored by the game

---
 dustmaker/level.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index d8f9b14..1d35358 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -570,7 +570,8 @@ class Level:
                     if delta_angle > math.pi:
                         delta_angle -= 2 * math.pi
 
-                    angle = -int(round(delta_angle * 180 / math.pi / 2))
+                    # Round down, absorbing the float error of the angles first
+                    angle = -int(round(delta_angle * 180 / math.pi / 2, 6))
 
                     # Set caps and angles based on joiner
                     caps[dr] = False
-- 
2.43.0


From cd1cfef914a84d5be3bd30ec1dfebdebf0ff5d8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:33:50 +0000
Subject: [PATCH 22/30] fix: of several joining edges the one leading most away
 from the tile decides the caps, as documented

---
 dustmaker/level.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/level.py b/dustmaker/level.py
index 1d35358..e0e1052 100644
--- a/dustmaker/level.py
+++ b/dustmaker/level.py
@@ -534,7 +534,7 @@ class Level:
                     else:  # Slants
                         # No caps allowed on slant half edges
                         continue
-                    if dr:
+                    if not dr:
                         ddirs = ddirs[::-1]
 
                     for dx, dy in ddirs:
-- 
2.43.0


From 0c4d6628a0930bd064e1667c7dd4de95ad3df7a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:00 +0000
Subject: [PATCH 23/30] fix: slices of array variables give and take unboxed
 values like the rest of the list interface

---
 dustmaker/variable.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dustmaker/variable.py b/dustmaker/variable.py
index fac7d69..dac2b61 100644
--- a/dustmaker/variable.py
+++ b/dustmaker/variable.py
@@ -228,9 +228,14 @@ class VariableArray(Variable, collections.abc.MutableSequence):
     # is a little weird with arrays where the unboxed type is a (type, list)
     # tuple but works in principle.
     def __getitem__(self, key):
+        if isinstance(key, slice):
+            return [elem.value for elem in self.value[1][key]]
         return self.value[1][key].value
 
     def __setitem__(self, key, val):
+        if isinstance(key, slice):
+            self.value[1][key] = [self._box(elem) for elem in val]
+            return
         self.value[1][key] = self._box(val)
 
     def __delitem__(self, key):
-- 
2.43.0


From db9ed8b100668435cf4fa4d1326d8e50a6c52aa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:47:00 +0000
Subject: [PATCH 24/30] fix: arrays of the abstract variable type, which save
 as unreadable files, are refused

---
 dustmaker/variable.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dustmaker/variable.py b/dustmaker/variable.py
index dac2b61..be5dad3 100644
--- a/dustmaker/variable.py
+++ b/dustmaker/variable.py
@@ -261,6 +261,7 @@ class VariableArray(Variable, collections.abc.MutableSequence):
             and len(self.value) == 2
             and isinstance(self.value[0], type)
             and issubclass(self.value[0], Variable)
+            and self.value[0]._vtype is not VariableType.NULL
             and isinstance(self.value[1], list)
         )
         for elem in self.value[1]:
-- 
2.43.0


From 7316ff08a814f47e3226e872171f1ccb22d256a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:31 +0000
Subject: [PATCH 25/30] fix: remap the level list of custom score books with
 the other entity links

---
 dustmaker/entity.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index cbda069..b31a1ae 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -845,6 +845,11 @@ class CustomScoreBook(Entity):
 
     TYPE_IDENTIFIER = "custom_score_book"
 
+    def remap_ids(self, id_map: Dict[int, int]) -> None:
+        """Remap the level list ID."""
+        super().remap_ids(id_map)
+        self.level_list = id_map.get(self.level_list, 0)
+
     level_list = bind_prop("level_list_id", VariableInt, 0, "ID of StringList entity")
 
 
-- 
2.43.0


From 63c8c66bbdae1c20e198f17b2c4ac0670a36398b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:31 +0000
Subject: [PATCH 26/30] fix: default speed of ambience and music triggers is a
 float like any other value of it

---
 dustmaker/entity.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dustmaker/entity.py b/dustmaker/entity.py
index b31a1ae..f68b487 100644
--- a/dustmaker/entity.py
+++ b/dustmaker/entity.py
@@ -361,7 +361,7 @@ class AmbienceTrigger(Trigger):
 
     TYPE_IDENTIFIER = "ambience_trigger"
 
-    speed = bind_prop("ambience_speed", VariableFloat, 5)
+    speed = bind_prop("ambience_speed", VariableFloat, 5.0)
     sound_names = bind_prop_arr("sound_ambience_names", VariableString)
     sound_vols = bind_prop_arr("sound_ambience_vol", VariableFloat)
 
@@ -371,7 +371,7 @@ class MusicTrigger(Trigger):
 
     TYPE_IDENTIFIER = "music_trigger"
 
-    speed = bind_prop("music_speed", VariableFloat, 5)
+    speed = bind_prop("music_speed", VariableFloat, 5.0)
     sound_names = bind_prop_arr("sound_music_names", VariableString)
     sound_vols = bind_prop_arr("sound_music_vol", VariableFloat)
 
-- 
2.43.0


From 1ec74ab3176106a0bd8c6343b6ef90f7c70453f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:31 +0000
Subject: [PATCH 27/30] fix: struct and array variables can be hashed as
 documented

---
 dustmaker/variable.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/dustmaker/variable.py b/dustmaker/variable.py
index be5dad3..cf46440 100644
--- a/dustmaker/variable.py
+++ b/dustmaker/variable.py
@@ -179,6 +179,9 @@ class VariableStruct(Variable):
             assert isinstance(key, str) and isinstance(val, Variable)
             val._assert_types()
 
+    def __hash__(self):
+        return hash((self._vtype, frozenset(self.value.items())))
+
 
 class VariableArray(Variable, collections.abc.MutableSequence):
     """Represents an array variable. Arrays are stored a bit differently
@@ -267,3 +270,6 @@ class VariableArray(Variable, collections.abc.MutableSequence):
         for elem in self.value[1]:
             assert isinstance(elem, self.value[0])
             elem._assert_types()
+
+    def __hash__(self):
+        return hash((self._vtype, self.value[0], tuple(self.value[1])))
-- 
2.43.0


From ce9770d58a6f74ee242c92971f1dbf10d2f581da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:49:31 +0000
Subject: [PATCH 28/30] fix: tiles can be hashed as documented

---
 dustmaker/tile.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/dustmaker/tile.py b/dustmaker/tile.py
index 13b18f6..dd187b9 100644
--- a/dustmaker/tile.py
+++ b/dustmaker/tile.py
@@ -4,7 +4,7 @@ Module defining the tile respresentation in dustmaker.
 
 import copy
 import math
-from dataclasses import dataclass
+from dataclasses import astuple, dataclass
 from enum import IntEnum
 from typing import Generator, Optional, Tuple
 
@@ -173,10 +173,12 @@ class Tile:
         return self._vals() == oth._vals()
 
     def __hash__(self):
-        return hash(self._vals())
+        # Edges can be changed and are not hashable themselves.
+        edges = tuple(astuple(edge) for edge in self.edge_data)
+        return hash((self.shape, self.tile_flags, edges, self.get_sprite_tuple()))
 
     def _vals(self):
-        """Values used for __eq__ and __hash__"""
+        """Values used for __eq__"""
         return (
             self.shape,
             self.tile_flags,
-- 
2.43.0


From c5027d643c217fda94447f603286b2277dfee8cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:47:14 +0000
Subject: [PATCH 29/30] fix: edges whose spikes were removed count as tile
 surface again

---
 dustmaker/dfwriter.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/dustmaker/dfwriter.py b/dustmaker/dfwriter.py
index 0f1e103..b9473e7 100644
--- a/dustmaker/dfwriter.py
+++ b/dustmaker/dfwriter.py
@@ -309,10 +309,9 @@ class DFWriter(BitIOWriter):
                         if tile.is_dustblock():
                             dustblock_filth += 1
                         for edge in tile.edge_data:
-                            if edge.filth_spike:
-                                continue
-
                             if edge.filth_sprite_set != TileSpriteSet.NONE_0:
+                                if edge.filth_spike:
+                                    continue
                                 dust_filth += 1
 
                             if edge.solid and edge.visible:
-- 
2.43.0


From 101b17b7d1290aceaeaa287b2f268ac209712db4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:41:14 +0000
Subject: [PATCH 30/30] fix: reading zero signed bits after a seek into a byte

---
 dustmaker/bitio.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dustmaker/bitio.py b/dustmaker/bitio.py
index 69a46ec..2918e16 100644
--- a/dustmaker/bitio.py
+++ b/dustmaker/bitio.py
@@ -154,7 +154,7 @@ class BitIOReader(BitIO):
 
         # Remove the extra data
         result = result & (1 << bits) - 1
-        if signed and (result & (1 << bits - 1)):
+        if signed and (result & (1 << bits >> 1)):
             result -= 1 << bits
 
         self._tell += bits
-- 
2.43.0

