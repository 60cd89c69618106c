From 2883fa6a1e571eafcb7f542536a4896b0edb0415 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:04 +0000
Subject: [PATCH 01/24] fix: pad segments shorter than the 16-byte minimum
 instead of refusing to write them

Records with a body below 12 bytes, and any record with a maximum record length of 20-30, could not be written.
---
 .../logical_record/logical_record_bytes.py    | 34 +++++++++++--------
 1 file changed, 19 insertions(+), 15 deletions(-)

diff --git a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
index b365f5c..33b95f4 100644
--- a/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
+++ b/src/dliswriter/logical_record/core/logical_record/logical_record_bytes.py
@@ -69,9 +69,6 @@ class LogicalRecordBytes:
                 raise ValueError("Logical record too short for the requested bytes")
             is_last = end_pos == self._size
 
-        if n_bytes < 12:
-            raise ValueError(f"Logical Record segment body cannot be shorter than 12 bytes (got {n_bytes})")
-
         segment_attributes = SegmentAttributes(
             is_eflr=self._is_eflr,
             is_first=(start_pos == 0),
@@ -79,16 +76,23 @@ class LogicalRecordBytes:
         )
 
         size = n_bytes + 4  # adding header size - 4 bytes
-        if size % 2:
+        n_padding = 0
+        if size < 16:
+            # total segment size must be at least 16; fill it up with padding bytes
+            n_padding = 16 - size
+        elif size % 2:
             # total segment size must be even; if the number of bytes is odd, add a padding byte
-            size += 1
+            n_padding = 1
+        if n_padding:
+            size += n_padding
             segment_attributes.has_padding = True
 
         header_bytes = RepC.UNORM.convert(size) + segment_attributes.to_struct() + self._lr_type_struct
 
         new_bts = header_bytes + self._bts[start_pos:end_pos]
         if segment_attributes.has_padding:
-            new_bts += self.padding  # add the promised padding byte
+            # add the promised padding byte(s); the last one must hold the pad count
+            new_bts += n_padding * (self.padding if n_padding == 1 else RepC.USHORT.convert(n_padding))
 
         return new_bts, size
 
@@ -99,7 +103,7 @@ class LogicalRecordBytes:
 
         Args:
             max_n_bytes :   Maximal number of bytes in a segment body. Note that 4 more bytes will be added for the
-                            header (and one more byte for the padding if the number of bytes is odd).
+                            header (and padding if the number of bytes is odd or smaller than 12).
                             Must be an integer of minimal value of 12. Only this condition (>= 12) is checked;
                             other checks (type etc.) are left out for performance reasons.
 
@@ -108,19 +112,19 @@ class LogicalRecordBytes:
         """
 
         start_pos = 0  # start from the beginning of the logical record bytes
-        remaining_size = self._size  # all bytes will be processed; self._size is assumed to always be >=12
+        remaining_size = self._size  # all bytes will be processed
 
-        if max_n_bytes < 24:
-            # minimal length of a logical record segment is 16 (of which 4 bytes are reserved for header),
-            # so for the splitting to work correctly max_n_bytes must be >= 24, which is twice the min segment body size
-            raise ValueError(f"Max size of a logical record segment body cannot be less than 24 (got {max_n_bytes})")
+        if max_n_bytes < 12:
+            # minimal length of a logical record segment is 16 (of which 4 bytes are reserved for header)
+            raise ValueError(f"Max size of a logical record segment body cannot be less than 12 (got {max_n_bytes})")
 
         while remaining_size > 0:
             n_bytes = min(remaining_size, max_n_bytes)  # size of the current (to be created) segment body
             future_remaining_size = remaining_size - n_bytes  # how many bytes will be left for a next segment
-            if 0 < future_remaining_size < 12:
-                # the next segment would be shorter than 12 bytes, and this is not allowed
-                # so the current segment must be shortened by a few bytes which will be passed over to the next segment;
+            if 0 < future_remaining_size < 12 and n_bytes - (12 - future_remaining_size) >= 12:
+                # the next segment would be shorter than 12 bytes, and this is not allowed without padding
+                # so the current segment is shortened by a few bytes which will be passed over to the next segment
+                # (unless it would become too short itself, in which case the next segment gets padded)
                 n_bytes -= (12 - future_remaining_size)
                 future_remaining_size = 12
 
-- 
2.43.0


From ca5ea81b2d217155fb772a958702f2e639856c10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:04 +0000
Subject: [PATCH 02/24] fix: keep no-format payloads unchanged instead of
 appending unflagged padding bytes to short ones

---
 .../logical_record/iflr_types/no_format_frame_data.py | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
index 80db7a6..525b8ee 100644
--- a/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
+++ b/src/dliswriter/logical_record/iflr_types/no_format_frame_data.py
@@ -1,7 +1,6 @@
 from typing import Union
 
 from dliswriter.logical_record.core.iflr import IFLR
-from dliswriter.logical_record.core.logical_record.logical_record_bytes import LogicalRecordBytes
 from dliswriter.utils.internal.internal_enums import IFLRType
 from dliswriter.logical_record.eflr_types.no_format import NoFormatItem
 
@@ -27,14 +26,8 @@ class NoFormatFrameData(IFLR):
         else:
             data_encoded = self.data.encode('ascii')
 
-        bts = self.no_format_object.obname + data_encoded
-
-        # add padding if the length of the bts is less than minimum (12)
-        padding_len = 12 - len(bts)
-        if padding_len:
-            bts += padding_len * LogicalRecordBytes.padding
-
-        return bts
+        # note: a body shorter than the minimal segment length gets (flagged) padding when it is segmented
+        return self.no_format_object.obname + data_encoded
 
     @property
     def n_items(self) -> int:
-- 
2.43.0


From a705633f93aeb87e0f68f58a862d5160f71c6407 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:16 +0000
Subject: [PATCH 03/24] fix: write the value of a Unit member assigned to the
 units of an attribute, not the member's repr

---
 src/dliswriter/logical_record/core/attribute/attribute.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/dliswriter/logical_record/core/attribute/attribute.py b/src/dliswriter/logical_record/core/attribute/attribute.py
index 185e7b8..cc7e9c7 100644
--- a/src/dliswriter/logical_record/core/attribute/attribute.py
+++ b/src/dliswriter/logical_record/core/attribute/attribute.py
@@ -152,8 +152,7 @@ class Attribute:
         if not self._units_settable:
             raise RuntimeError(f"Units of {self.__class__.__name__} cannot be set")
 
-        self._unit_checker(units)
-        self._units = units
+        self._units = self._unit_checker(units)
 
     @property
     def count(self) -> Union[int, None]:
-- 
2.43.0


From 54d2849f11c58d02e3b229aab541659306130d7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:16 +0000
Subject: [PATCH 04/24] fix: encode identifiers as IDENT (one length byte, at
 most 255 characters)

Names, labels, units and set names of 128 characters or more got a two-byte UVARI length prefix.
---
 .../logical_record/core/attribute/attribute.py    |  6 +++---
 .../logical_record/core/eflr/eflr_set.py          |  6 +++---
 src/dliswriter/utils/internal/struct_writer.py    | 15 ++++++++++++---
 3 files changed, 18 insertions(+), 9 deletions(-)

diff --git a/src/dliswriter/logical_record/core/attribute/attribute.py b/src/dliswriter/logical_record/core/attribute/attribute.py
index cc7e9c7..9ccd871 100644
--- a/src/dliswriter/logical_record/core/attribute/attribute.py
+++ b/src/dliswriter/logical_record/core/attribute/attribute.py
@@ -1,7 +1,7 @@
 from typing import Union, Any, TYPE_CHECKING, Callable, Optional
 import logging
 
-from dliswriter.utils.internal.struct_writer import write_struct, write_struct_ascii, write_struct_uvari
+from dliswriter.utils.internal.struct_writer import write_struct, write_struct_ident, write_struct_uvari
 from dliswriter.utils.internal.internal_enums import RepresentationCode
 from dliswriter.utils.enums import Unit
 from dliswriter.utils.internal.converters import ReprCodeConverter
@@ -217,7 +217,7 @@ class Attribute:
         """Transform the attribute to bytes and characteristics needed for an EFLRSet template."""
 
         if self._label:
-            bts += write_struct_ascii(self._label)
+            bts += write_struct_ident(self._label)
             characteristics += '1'
         else:
             characteristics += '0'
@@ -257,7 +257,7 @@ class Attribute:
 
         # units
         if self._units:
-            bts += write_struct_ascii(self._units)
+            bts += write_struct_ident(self._units)
             characteristics += '1'
         else:
             characteristics += '0'
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_set.py b/src/dliswriter/logical_record/core/eflr/eflr_set.py
index 4cb5d69..0fc8543 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_set.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_set.py
@@ -1,7 +1,7 @@
 import logging
 from typing import Optional
 
-from dliswriter.utils.internal.struct_writer import write_struct_ascii
+from dliswriter.utils.internal.struct_writer import write_struct_ident
 from dliswriter.utils.internal.internal_enums import EFLRType
 from dliswriter.logical_record.core.logical_record import LogicalRecord
 from dliswriter.logical_record.core.eflr.eflr_item import EFLRItem
@@ -29,7 +29,7 @@ class EFLRSet(LogicalRecord):
         super().__init__()
 
         self.set_name = set_name
-        self._set_type_struct = write_struct_ascii(self.set_type)  # used in the header
+        self._set_type_struct = write_struct_ident(self.set_type)  # used in the header
         self._eflr_item_list: list[EFLRItem] = []  # instances of EFLRItem registered with this EFLRSet instance
 
     def __str__(self) -> str:
@@ -41,7 +41,7 @@ class EFLRSet(LogicalRecord):
         """Create bytes describing the set of this EFLR, using set type (class attr) and name (specified at init)."""
 
         if self.set_name:
-            _bytes = b'\xf8' + self._set_type_struct + write_struct_ascii(self.set_name)
+            _bytes = b'\xf8' + self._set_type_struct + write_struct_ident(self.set_name)
         else:
             _bytes = b'\xf0' + self._set_type_struct
 
diff --git a/src/dliswriter/utils/internal/struct_writer.py b/src/dliswriter/utils/internal/struct_writer.py
index 760f85e..67d4a5c 100644
--- a/src/dliswriter/utils/internal/struct_writer.py
+++ b/src/dliswriter/utils/internal/struct_writer.py
@@ -77,6 +77,15 @@ def write_struct_ascii(value: Any) -> bytes:
     return write_struct_uvari(len(value_str)) + value_str.encode('ascii')
 
 
+def write_struct_ident(value: Any) -> bytes:
+    """Convert value to str, encode as ASCII, and represent as an IDENT: one length byte followed by the characters."""
+
+    value_encoded = str(value).encode('ascii')
+    if len(value_encoded) > 255:
+        raise ValueError(f"IDENT cannot be longer than 255 characters; got {len(value_encoded)}: {value}")
+    return RepresentationCode.USHORT.convert(len(value_encoded)) + value_encoded
+
+
 def write_struct_uvari(value: int) -> bytes:
     """Convert an integer to bytes. The format (USHORT/UNORM/ULONG) is chosen depending on the provided value."""
 
@@ -99,7 +108,7 @@ def write_struct_obname(value: "EFLRItem") -> bytes:
     try:
         origin_reference = write_struct_uvari(value.origin_reference)
         copy_number = RepresentationCode.USHORT.convert(value.copy_number)
-        name = write_struct_ascii(value.name)
+        name = write_struct_ident(value.name)
 
         obname = origin_reference + copy_number + name
 
@@ -112,7 +121,7 @@ def write_struct_obname(value: "EFLRItem") -> bytes:
 def write_struct_objref(value: "EFLRItem") -> bytes:
     """Create a reference to an EFLRObject, based on the object's name and set type it belongs to."""
 
-    return write_struct_ascii(value.parent.set_type) + value.obname
+    return write_struct_ident(value.parent.set_type) + value.obname
 
 
 def write_struct_status(value: int) -> bytes:
@@ -128,7 +137,7 @@ def write_struct_status(value: int) -> bytes:
 _struct_dict = {
     RepresentationCode.ASCII: write_struct_ascii,
     RepresentationCode.UVARI: write_struct_uvari,
-    RepresentationCode.IDENT: write_struct_ascii,
+    RepresentationCode.IDENT: write_struct_ident,
     RepresentationCode.DTIME: write_struct_dtime,
     RepresentationCode.OBNAME: write_struct_obname,
     RepresentationCode.OBJREF: write_struct_objref,
-- 
2.43.0


From 85af89bc34dc20173ee040d1d0dfa6b615763381 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:08 +0000
Subject: [PATCH 05/24] fix: mark attributes set to an empty list as absent;
 give scalar values the dimension [1]

An empty list was announced as a value and then omitted, which made the set undecodable; among others, the dimension
of every calibration measurement with scalar values was derived as such an empty list.
---
 src/dliswriter/logical_record/core/eflr/eflr_item.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index aa4d425..3da37d4 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -172,7 +172,8 @@ class EFLRItem:
 
         _bytes = b''
         for attr in self.attributes.values():
-            if attr.value is None:
+            if attr.value is None or attr.count == 0:
+                # no value at all or an empty list of values - mark the attribute as absent
                 _bytes += b'\x00'
             else:
                 _bytes += attr.get_as_bytes()
@@ -281,7 +282,7 @@ class DimensionedItem:
         except ValueError:
             raise RuntimeError(f"{self}: {value_label} {value} does not have a regular dimensionality structure")
 
-        dim_from_value = list(arr.shape[1:])
+        dim_from_value = list(arr.shape[1:]) or [1]
         if self.dimension.value is not None:
             if dim_from_value != self.dimension.value:
                 raise RuntimeError(f"{self}: shape of {value_label} {value} (shape {arr.shape}) does not match "
-- 
2.43.0


From 4cadc98bf1a5bbb2f39aa8a0609c84e57248a492 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:06:08 +0000
Subject: [PATCH 06/24] fix: encode every value and object name anew instead of
 caching the bytes

The cache confused values which compare equal (0.0 and -0.0, 1 and True, date-times in a changed time zone) and kept
the old identity of objects whose name or origin reference was changed.
---
 src/dliswriter/logical_record/core/eflr/eflr_item.py | 3 +--
 src/dliswriter/utils/internal/struct_writer.py       | 2 --
 2 files changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index 3da37d4..7714345 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -1,5 +1,4 @@
 import logging
-from functools import cached_property
 from typing import TYPE_CHECKING, Any, Union, Optional, Generator
 import numpy as np
 
@@ -158,7 +157,7 @@ class EFLRItem:
 
         return super().__setattr__(key, value)
 
-    @cached_property
+    @property
     def obname(self) -> bytes:
         """Create OBNAME bytes of this item - bytes used to identify an item in the file.
 
diff --git a/src/dliswriter/utils/internal/struct_writer.py b/src/dliswriter/utils/internal/struct_writer.py
index 67d4a5c..9595bd1 100644
--- a/src/dliswriter/utils/internal/struct_writer.py
+++ b/src/dliswriter/utils/internal/struct_writer.py
@@ -1,6 +1,5 @@
 from datetime import datetime, timezone
 from typing import Any, TYPE_CHECKING
-from functools import lru_cache
 
 from dliswriter.utils.internal.internal_enums import RepresentationCode
 
@@ -145,7 +144,6 @@ _struct_dict = {
 }
 
 
-@lru_cache(maxsize=65536)
 def write_struct(representation_code: RepresentationCode, value: Any) -> bytes:
     """Convert a value to bytes according to the RP66 V1 spec.
 
-- 
2.43.0


From 115497f87eac90f11bd3cf63a07d78db6dd8f45f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:50 +0000
Subject: [PATCH 07/24] fix: bring source data to native byte order, so that
 big-endian data is not written byte-swapped

---
 src/dliswriter/utils/source_data_wrappers.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index f761131..7189a45 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -110,7 +110,8 @@ class SourceDataWrapper(ABC):
             ReprCodeConverter.validate_numpy_dtype(number_type)
 
             # determine the dtype of the data set (2- or 3-tuple)
-            dt = (dtype_name, number_type)
+            # note: byte order is changed to the native one, as expected when the data is written
+            dt = (dtype_name, np.dtype(number_type).newbyteorder('='))
             if dset_row0.ndim > 1:
                 if dset_row0.ndim > 2:
                     raise RuntimeError("Data sets with more than 2 dimensions are not supported")
-- 
2.43.0


From c6860903dbba7c3c932527ffd5b362e58771a73a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:50 +0000
Subject: [PATCH 08/24] fix: respect the row window and the data set mapping
 when slicing a structured array directly

---
 src/dliswriter/utils/source_data_wrappers.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index 7189a45..49044c6 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -330,8 +330,10 @@ class NumpyDataWrapper(SourceDataWrapper):
             A structured numpy array, containing the required chunks of all the relevant data sets from the source data.
         """
 
-        if self._dtype == self._data_source.dtype:
-            return self._data_source[start:stop]
+        if self._dtype == self._data_source.dtype and all(k == v for k, v in self._mapping.items()):
+            if stop is None:
+                stop = self._n_rows
+            return self._data_source[self._from_idx + start:self._from_idx + stop]
 
         return super().load_chunk(start, stop)
 
-- 
2.43.0


From 27cb4d116368ef9783ce9f456c6d035092a833d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:08:50 +0000
Subject: [PATCH 09/24] fix: reject data sets of different lengths, row windows
 outside of the data, and non-positive input chunk sizes

They were written with rows missing, repeated or taken from the end of the data.
---
 src/dliswriter/file/multi_frame_data.py      |  2 ++
 src/dliswriter/utils/source_data_wrappers.py | 10 ++++++++++
 2 files changed, 12 insertions(+)

diff --git a/src/dliswriter/file/multi_frame_data.py b/src/dliswriter/file/multi_frame_data.py
index 3e2d4bb..a3922bc 100644
--- a/src/dliswriter/file/multi_frame_data.py
+++ b/src/dliswriter/file/multi_frame_data.py
@@ -27,6 +27,8 @@ class MultiFrameData:
         self._check_type(frame, FrameItem)
         self._check_type(data, SourceDataWrapper)
         self._check_type(chunk_size, int, type(None))
+        if chunk_size is not None and chunk_size < 1:
+            raise ValueError(f"Input chunk size must be a positive number of rows; got {chunk_size}")
 
         frame_channel_names = tuple(c.name for c in frame.channels.value)
         data_channel_names = data.dtype.names
diff --git a/src/dliswriter/utils/source_data_wrappers.py b/src/dliswriter/utils/source_data_wrappers.py
index 49044c6..c040457 100644
--- a/src/dliswriter/utils/source_data_wrappers.py
+++ b/src/dliswriter/utils/source_data_wrappers.py
@@ -45,11 +45,16 @@ class SourceDataWrapper(ABC):
 
         # total number of rows - guessed from the first dataset
         total_n_rows = self._data_source[next(iter(mapping.values()))].shape[0]
+        self._total_n_rows = total_n_rows
 
         self._from_idx = from_idx
         self._to_idx = to_idx if to_idx is not None else total_n_rows
         self._n_rows = self._to_idx - self._from_idx  # number of rows to be loaded
 
+        if self._from_idx < 0:
+            raise ValueError(f"Starting index cannot be negative; got {self._from_idx}")
+        if self._to_idx > total_n_rows:
+            raise ValueError(f"End index {self._to_idx} too large for total n. rows {total_n_rows}")
         if self._from_idx >= total_n_rows:
             raise ValueError(f"Starting index {self._from_idx} too large for total n. rows {total_n_rows}")
         if self._n_rows < 1:
@@ -185,6 +190,11 @@ class SourceDataWrapper(ABC):
             Structured numpy.ndarray objects with the consecutive chunks of the source data.
         """
 
+        for key, loc in self._mapping.items():
+            if (n := self._data_source[loc].shape[0]) != self._total_n_rows:
+                raise ValueError(f"All data sets must have the same number of rows; got {n} rows for '{key}', "
+                                 f"expected {self._total_n_rows}")
+
         if chunk_rows is None:
             chunk_rows = self._n_rows
             n_full_chunks = 1
-- 
2.43.0


From e0657608d5d4564ad537fe1a832305ebe04a34e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:22 +0000
Subject: [PATCH 10/24] fix: compute index spacing, minimum and maximum from
 the values as written and in a type that does not wrap

Differences of unsigned or narrow integer indexes wrapped around, a declared cast was not considered, and a single row
or NaN differences produced a NaN spacing.
---
 src/dliswriter/logical_record/eflr_types/frame.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/dliswriter/logical_record/eflr_types/frame.py b/src/dliswriter/logical_record/eflr_types/frame.py
index 4dc250b..ebc2836 100644
--- a/src/dliswriter/logical_record/eflr_types/frame.py
+++ b/src/dliswriter/logical_record/eflr_types/frame.py
@@ -98,7 +98,7 @@ class FrameItem(EFLRItem):
                 setattr(attr, key, value)
 
         index_channel: ChannelItem = self.channels.value[0]
-        index_data = data[index_channel.name][:]
+        index_data = data[index_channel.name][:].astype(data.dtype[index_channel.name].base)  # as it will be written
 
         if self.index_type.value is None:
             # according to RP66, if index_type is None:
@@ -120,7 +120,9 @@ class FrameItem(EFLRItem):
                                    f"for {index_channel} of {self}")
             spacing, direction = self._compute_spacing_and_direction(index_data)
 
-            if spacing is None:
+            if len(index_data) < 2:
+                pass  # a single row has neither spacing nor direction
+            elif spacing is None:
                 # spacing cannot be used because it is not uniform enough; using only direction - if available
                 m = (f"Spacing of the index channel of {self} is not uniform; this can cause issues in some viewer "
                      f"software. Consider implicit indexing by row number number instead "
@@ -143,7 +145,8 @@ class FrameItem(EFLRItem):
             If direction cannot be determined, it is assigned to None.
         """
 
-        diff = np.diff(index_data)
+        # use a wide type so that the differences do not wrap around
+        diff = np.diff(index_data.astype(np.float64 if index_data.dtype.kind == 'f' else np.int64))
         diff_unique = np.unique(diff)
 
         if (diff_unique == 0).all():
@@ -155,6 +158,9 @@ class FrameItem(EFLRItem):
         else:
             direction = None  # some increasing, some decreasing -> not determined
 
+        if not len(diff) or not np.isfinite(diff).all():
+            return None, direction  # a single row or differences which are not numbers
+
         if len(diff_unique) == 1:
             # if spacing between each sample is the same, this is it
             return diff_unique[0], direction
-- 
2.43.0


From 03bec3ea577fd7edbf0ab51e024e3938b7e0b12b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:46 +0000
Subject: [PATCH 11/24] fix: determine write-time defaults anew for each
 written file

Dimension, element limit, long name, cast dtype, index characteristics and data passed to one write were kept as if the
user had set them, and ended up (stale) in the files written afterwards.
---
 src/dliswriter/file/file.py                   | 11 +++++++--
 .../core/attribute/attribute.py               | 18 +++++++++++++++
 .../logical_record/core/eflr/eflr_item.py     |  8 ++++++-
 .../logical_record/eflr_types/channel.py      | 23 ++++++++++++++-----
 .../logical_record/eflr_types/computation.py  |  2 +-
 .../logical_record/eflr_types/frame.py        |  2 +-
 .../logical_record/eflr_types/origin.py       |  2 +-
 .../logical_record/eflr_types/parameter.py    |  2 +-
 8 files changed, 55 insertions(+), 13 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 51396b8..369b76c 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -204,6 +204,7 @@ class DLISFile:
             """
 
             for lf in self.logical_files:
+                lf.reset_defaults()
                 lf.check_objects()
 
             logical_records = self.generate_logical_records(
@@ -2115,6 +2116,13 @@ class LogicalFile:
 
         return z
 
+    def reset_defaults(self) -> None:
+        """Forget the attribute defaults of all objects which were determined when writing an earlier file."""
+
+        for eflr_set_type in list(self._eflr_sets):
+            for eflr_item in self._eflr_sets.get_all_items_for_set_type(eflr_set_type):
+                eflr_item.reset_defaults()
+
     def check_objects(self) -> None:
         """Check objects defined for the DLISFile. Called before writing the file."""
 
@@ -2203,9 +2211,8 @@ class LogicalFile:
             data = {}
 
         if isinstance(data, dict):
-            self._data_dict = self._data_dict | data
             data_object = DictDataWrapper(
-                self._data_dict,
+                self._data_dict | data,
                 mapping=fr.channel_name_mapping,
                 known_dtypes=fr.known_channel_dtypes_mapping,
                 from_idx=from_idx,
diff --git a/src/dliswriter/logical_record/core/attribute/attribute.py b/src/dliswriter/logical_record/core/attribute/attribute.py
index 9ccd871..79038e6 100644
--- a/src/dliswriter/logical_record/core/attribute/attribute.py
+++ b/src/dliswriter/logical_record/core/attribute/attribute.py
@@ -64,6 +64,8 @@ class Attribute:
 
         self._unit_checker = Unit.make_converter("units", soft=True, allow_none=True)
 
+        self._defaults: set[str] = set()  # which parts ('value', 'units') were set as defaults when writing a file
+
     @staticmethod
     def _check_type(value: Any, *expected_types: type, allow_none: bool = False) -> None:
         """Check that value is an instance of the expected type. If not, raise a TypeError."""
@@ -97,6 +99,7 @@ class Attribute:
         """Set a new value of the attribute. Use the provided converter (if any) to transform/validate the value."""
 
         self._value = self.convert_value(val)
+        self._defaults.discard('value')
 
     @property
     def representation_code(self) -> Union[RepresentationCode, None]:
@@ -153,6 +156,21 @@ class Attribute:
             raise RuntimeError(f"Units of {self.__class__.__name__} cannot be set")
 
         self._units = self._unit_checker(units)
+        self._defaults.discard('units')
+
+    def set_default(self, val: Any, key: str = 'value') -> None:
+        """Set a part ('value' or 'units') to a default determined when writing a file. See also 'reset_defaults'."""
+
+        val = self.convert_value(val) if key == 'value' else self._unit_checker(val)
+        self._defaults.add(key)
+        setattr(self, f'_{key}', val)
+
+    def reset_defaults(self) -> None:
+        """Forget the defaults set for an earlier written file, so that they are determined anew for the next one."""
+
+        for key in self._defaults:
+            setattr(self, f'_{key}', None)
+        self._defaults.clear()
 
     @property
     def count(self) -> Union[int, None]:
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index 7714345..f5727e9 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -184,6 +184,12 @@ class EFLRItem:
 
         pass
 
+    def reset_defaults(self) -> None:
+        """Forget the attribute defaults which were determined when writing an earlier file."""
+
+        for attr in self.attributes.values():
+            attr.reset_defaults()
+
     def make_item_body_bytes(self) -> bytes:
         """Create bytes describing the item: its name and values of its attributes."""
 
@@ -287,4 +293,4 @@ class DimensionedItem:
                 raise RuntimeError(f"{self}: shape of {value_label} {value} (shape {arr.shape}) does not match "
                                    f"the specified dimensionality: {self.dimension.value}")
         else:
-            self.dimension.value = dim_from_value
+            self.dimension.set_default(dim_from_value)
diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index 244b2da..7ed9032 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -109,6 +109,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
             ReprCodeConverter.validate_numpy_dtype(dt)
 
         self._cast_dtype = dt
+        self._cast_dtype_from_data = False
         self.representation_code.set_from_dtype(self.cast_dtype)
 
     def set_dimension_and_repr_code_from_data(self, data: SourceDataWrapper) -> None:
@@ -128,7 +129,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
                 raise RuntimeError(f"Previously defined dimension of {self}: {self.dimension.value} "
                                    f"does not match the dimension from data: {dim}")
             logger.debug(f"Setting dimension of {self} to {dim}")
-            self.dimension.value = dim
+            self.dimension.set_default(dim)
 
         if self.element_limit.value != dim:
             if self.element_limit.value:  # was specified and is not exactly equal to dim
@@ -139,7 +140,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
             else:
                 # only set the element limit if it was None before
                 logger.debug(f"Setting element limit of {self} to {dim}")
-            self.element_limit.value = dim
+            self.element_limit.set_default(dim)
 
     @staticmethod
     def _compare_element_limit_vs_dimension(el: list[int], dim: list[int]) -> bool:
@@ -174,7 +175,17 @@ class ChannelItem(EFLRItem, DimensionedItem):
                 logger.warning(f"Data will be cast from {dt} to {self.cast_dtype}")
             return
 
-        self._set_cast_dtype(dt)
+        ReprCodeConverter.validate_numpy_dtype(dt)
+        self._cast_dtype_from_data = True
+        self._cast_dtype = dt
+        self.representation_code.set_from_dtype(dt)
+
+    def reset_defaults(self) -> None:
+        """Forget the attribute defaults and cast dtype which were determined when writing an earlier file."""
+
+        super().reset_defaults()
+        if self._cast_dtype_from_data:
+            self._set_cast_dtype(None)
 
     def _run_checks_and_set_defaults(self) -> None:
         """Set up default values of ChannelItem parameters if not explicitly set previously."""
@@ -182,12 +193,12 @@ class ChannelItem(EFLRItem, DimensionedItem):
         if not self.element_limit.value and self.dimension.value:
             logger.debug(f"Setting element limit of channel '{self.name}' to the same value "
                          f"as dimension: {self.dimension.value}")
-            self.element_limit.value = self.dimension.value
+            self.element_limit.set_default(self.dimension.value)
 
         elif not self.dimension.value and self.element_limit.value:
             logger.debug(f"Setting dimension of channel '{self.name}' to the same value "
                          f"as element limit: {self.element_limit.value}")
-            self.dimension.value = self.element_limit.value
+            self.dimension.set_default(self.element_limit.value)
 
         elif self.element_limit.value != self.dimension.value:
             if not self._compare_element_limit_vs_dimension(self.element_limit.value, self.dimension.value):
@@ -199,7 +210,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
 
         if not self.long_name.value:
             logger.debug(f"Long name of channel '{self.name}' not specified; setting it to to the channel's name")
-            self.long_name.value = self.name
+            self.long_name.set_default(self.name)
 
 
 class ChannelSet(EFLRSet):
diff --git a/src/dliswriter/logical_record/eflr_types/computation.py b/src/dliswriter/logical_record/eflr_types/computation.py
index 52ad2fd..9a3989a 100644
--- a/src/dliswriter/logical_record/eflr_types/computation.py
+++ b/src/dliswriter/logical_record/eflr_types/computation.py
@@ -50,7 +50,7 @@ class ComputationItem(EFLRItem, DimensionedItem):
 
         if self.values.value and not self.dimension.value:
             logger.debug(f"Setting dimension of '{self}' to [1]")
-            self.dimension.value = [1]
+            self.dimension.set_default([1])
 
 
 class ComputationSet(EFLRSet):
diff --git a/src/dliswriter/logical_record/eflr_types/frame.py b/src/dliswriter/logical_record/eflr_types/frame.py
index ebc2836..0c09d0d 100644
--- a/src/dliswriter/logical_record/eflr_types/frame.py
+++ b/src/dliswriter/logical_record/eflr_types/frame.py
@@ -95,7 +95,7 @@ class FrameItem(EFLRItem):
 
             if getattr(attr, key) is None and value is not None:
                 logger.debug(f"Setting {attr.label}.{key} of {self} to {value}")
-                setattr(attr, key, value)
+                attr.set_default(value, key)
 
         index_channel: ChannelItem = self.channels.value[0]
         index_data = data[index_channel.name][:].astype(data.dtype[index_channel.name].base)  # as it will be written
diff --git a/src/dliswriter/logical_record/eflr_types/origin.py b/src/dliswriter/logical_record/eflr_types/origin.py
index 61e5aaa..5be6f39 100644
--- a/src/dliswriter/logical_record/eflr_types/origin.py
+++ b/src/dliswriter/logical_record/eflr_types/origin.py
@@ -91,7 +91,7 @@ class OriginItem(EFLRItem):
 
         if self.field_name.value is None:
             logger.debug(f"Setting field_name of {self} to the default value: 'WILDCAT'")
-            self.field_name.value = 'WILDCAT'  # according to RP66
+            self.field_name.set_default('WILDCAT')  # according to RP66
 
     def _no_reassign_file_set_number(self, v: number_type) -> number_type:
         """Value checker for file_set_number. Make sure the value is not reassigned."""
diff --git a/src/dliswriter/logical_record/eflr_types/parameter.py b/src/dliswriter/logical_record/eflr_types/parameter.py
index 54b63a8..03acf1d 100644
--- a/src/dliswriter/logical_record/eflr_types/parameter.py
+++ b/src/dliswriter/logical_record/eflr_types/parameter.py
@@ -55,7 +55,7 @@ class ParameterItem(EFLRItem, DimensionedItem):
 
         if self.values.value and not self.dimension.value:
             logger.debug(f"Setting dimension of '{self}' to [1]")
-            self.dimension.value = [1]
+            self.dimension.set_default([1])
 
 
 class ParameterSet(EFLRSet):
-- 
2.43.0


From 25ab6862a9c470420ad075183813cd22f5efeb88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:46 +0000
Subject: [PATCH 12/24] fix: keep a valid element limit set by the user instead
 of overwriting it with the dimension

---
 src/dliswriter/logical_record/eflr_types/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index 7ed9032..fb36a7a 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -140,7 +140,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
             else:
                 # only set the element limit if it was None before
                 logger.debug(f"Setting element limit of {self} to {dim}")
-            self.element_limit.set_default(dim)
+                self.element_limit.set_default(dim)
 
     @staticmethod
     def _compare_element_limit_vs_dimension(el: list[int], dim: list[int]) -> bool:
-- 
2.43.0


From 3036a5c0d409ca330c69015b59b040f3e0c8119e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:43 +0000
Subject: [PATCH 13/24] fix: accept 0 as an explicit origin reference

---
 src/dliswriter/file/file.py | 51 ++++++++++++++++++++-----------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 369b76c..b48399c 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -312,6 +312,11 @@ class LogicalFile:
             return origin.origin_reference
         return None
 
+    def _origin_reference_or_default(self, origin_reference: Optional[int]) -> Union[int, None]:
+        """Origin reference explicitly given for an object (can be 0) or - if not given - the default one."""
+
+        return origin_reference if origin_reference is not None else self.default_origin_reference
+
     @property
     def channels(self) -> list[eflr_types.ChannelItem]:
         """Channels defined for the DLIS."""
@@ -374,7 +379,7 @@ class LogicalFile:
             coordinates=coordinates,
             spacing=spacing,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._origin_reference_or_default(origin_reference),
         )
 
         return ax
@@ -450,7 +455,7 @@ class LogicalFile:
             parameters=parameters,
             method=method,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._origin_reference_or_default(origin_reference),
         )
 
         return c
@@ -529,7 +534,7 @@ class LogicalFile:
             plus_tolerances=plus_tolerances,
             minus_tolerances=minus_tolerances,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._origin_reference_or_default(origin_reference),
         )
 
         return c
@@ -671,7 +676,7 @@ class LogicalFile:
             plus_tolerance=plus_tolerance,
             minus_tolerance=minus_tolerance,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._origin_reference_or_default(origin_reference),
         )
 
         return m
@@ -761,7 +766,7 @@ class LogicalFile:
             maximum_value=maximum_value,
             source=source,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._origin_reference_or_default(origin_reference),
         )
 
         if data is not None:
@@ -826,7 +831,7 @@ class LogicalFile:
             name=name,
             text=text,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._origin_reference_or_default(origin_reference),
         )
 
         return c
@@ -898,7 +903,7 @@ class LogicalFile:
             values=values,
             source=source,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._origin_reference_or_default(origin_reference),
         )
 
         return c
@@ -1015,7 +1020,7 @@ class LogicalFile:
             radial_drift=radial_drift,
             angular_drift=angular_drift,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._origin_reference_or_default(origin_reference),
         )
 
         return eq
@@ -1128,7 +1133,7 @@ class LogicalFile:
             index_min=index_min,
             index_max=index_max,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._origin_reference_or_default(origin_reference),
         )
 
         return fr
@@ -1174,7 +1179,7 @@ class LogicalFile:
             parent=self.physical_file._eflr_sets.get_or_make_set(
                 eflr_types.GroupSet, set_name=set_name
             ),
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._origin_reference_or_default(origin_reference),
         )
 
         return g
@@ -1274,7 +1279,7 @@ class LogicalFile:
             standard_symbol=standard_symbol,
             private_symbol=private_symbol,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._origin_reference_or_default(origin_reference),
         )
 
         return ln
@@ -1325,7 +1330,7 @@ class LogicalFile:
             angular_drift=angular_drift,
             text=text,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._origin_reference_or_default(origin_reference),
         )
 
         return m
@@ -1374,7 +1379,7 @@ class LogicalFile:
             consumer_name=consumer_name,
             description=description,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._origin_reference_or_default(origin_reference),
         )
 
         return nf
@@ -1405,7 +1410,7 @@ class LogicalFile:
     ) -> int:
         origins_refs = [o.origin_reference for o in origins]
         next_available_origin_ref: int = 0
-        if origin_reference:
+        if origin_reference is not None:
             next_available_origin_ref = origin_reference
             if origin_reference in origins_refs:
                 raise RuntimeError(
@@ -1532,7 +1537,7 @@ class LogicalFile:
         new_origin_ref = self.next_available_origin_ref(origin_reference, origins)
         """ origins_refs = [o.origin_reference for o in origins]
         next_available_origin_ref: int = 0
-        if origin_reference:
+        if origin_reference is not None:
             next_available_origin_ref = origin_reference
             if origin_reference in origins_refs:
                 raise RuntimeError(
@@ -1547,7 +1552,7 @@ class LogicalFile:
 
         o = eflr_types.OriginItem(
             name=name,
-            origin_reference=origin_reference or new_origin_ref,
+            origin_reference=new_origin_ref,
             file_set_number=file_set_number,
             file_set_name=file_set_name,
             file_id=self.file_header.header_id,
@@ -1648,7 +1653,7 @@ class LogicalFile:
             zones=zones,
             values=values,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._origin_reference_or_default(origin_reference),
         )
 
         return p
@@ -1771,7 +1776,7 @@ class LogicalFile:
             measure_point_offset=measure_point_offset,
             tool_zero_offset=tool_zero_offset,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._origin_reference_or_default(origin_reference),
         )
 
         return p
@@ -1847,7 +1852,7 @@ class LogicalFile:
             parameters=parameters,
             comments=comments,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._origin_reference_or_default(origin_reference),
         )
 
         return p
@@ -1899,7 +1904,7 @@ class LogicalFile:
             input_channels=input_channels,
             zones=zones,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._origin_reference_or_default(origin_reference),
         )
 
         return sp
@@ -1960,7 +1965,7 @@ class LogicalFile:
             channels=channels,
             parameters=parameters,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._origin_reference_or_default(origin_reference),
         )
 
         return t
@@ -2050,7 +2055,7 @@ class LogicalFile:
             coordinate_3_name=coordinate_3_name,
             coordinate_3_value=coordinate_3_value,
             parent=parent,
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._origin_reference_or_default(origin_reference),
         )
 
         return w
@@ -2111,7 +2116,7 @@ class LogicalFile:
             parent=self.physical_file._eflr_sets.get_or_make_set(
                 eflr_types.ZoneSet, set_name=set_name
             ),
-            origin_reference=origin_reference or self.default_origin_reference,
+            origin_reference=self._origin_reference_or_default(origin_reference),
         )
 
         return z
-- 
2.43.0


From 421d4cf8c4b7352a96472b301033649ef9a998df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:05 +0000
Subject: [PATCH 14/24] fix: reject references and origin references which
 cannot be resolved within the logical file

An origin added to one logical file was also assigned to objects of the other logical files still lacking one.
---
 src/dliswriter/file/file.py | 31 ++++++++++++++++++++++++++-----
 1 file changed, 26 insertions(+), 5 deletions(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index b48399c..6cae98c 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -1588,11 +1588,6 @@ class LogicalFile:
                     for eflr_item in eflr_set.get_all_eflr_items():
                         if eflr_item.origin_reference is None:
                             eflr_item.origin_reference = o.origin_reference
-            for eflr_set_dict in self.physical_file._eflr_sets.values():
-                for eflr_set in eflr_set_dict.values():
-                    for eflr_item in eflr_set.get_all_eflr_items():
-                        if eflr_item.origin_reference is None:
-                            eflr_item.origin_reference = o.origin_reference
 
             # Not enlisted in the sets. See Issue #
             self.file_header_item.origin_reference = o.origin_reference
@@ -2132,9 +2127,35 @@ class LogicalFile:
         """Check objects defined for the DLISFile. Called before writing the file."""
 
         self._check_completeness()
+        self._check_references()
         self._check_channels_assigned_to_frames()
         self._check_defining_origin_params()
 
+    def _check_references(self) -> None:
+        """Check that all origin references and references to other objects can be resolved in this logical file."""
+
+        items: list[EFLRItem] = []
+        for eflr_set_type in list(self._eflr_sets):
+            items.extend(self._eflr_sets.get_all_items_for_set_type(eflr_set_type))
+        item_ids = set(id(item) for item in items)
+        origin_references = set(origin.origin_reference for origin in self.origins)
+
+        for item in (self.file_header, *items):
+            if item.origin_reference not in origin_references:
+                raise RuntimeError(f"Origin reference of {item} ({item.origin_reference}) does not match any Origin "
+                                   f"of the logical file")
+
+            for attr in item.attributes.values():
+                value = attr.value if isinstance(attr.value, (list, tuple)) else [attr.value]
+                for v in attr.flatten_list(value):
+                    if isinstance(v, EFLRItem) and id(v) not in item_ids:
+                        raise RuntimeError(f"{attr} refers to {v}, which does not belong to the logical file")
+
+        for no_format_data in self._no_format_frame_data:
+            if id(no_format_data.no_format_object) not in item_ids:
+                raise RuntimeError(f"No-format frame data refers to {no_format_data.no_format_object}, "
+                                   f"which does not belong to the logical file")
+
     def _check_defining_origin_params(self) -> None:
         """Check that the file_id of the defining origin is the same as the ID of the header."""
 
-- 
2.43.0


From 94b66535f35c525310688f4060abbd4e1f189c38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:42 +0000
Subject: [PATCH 15/24] fix: leave no trace of objects whose creation was
 rejected

Items were registered with their set before their attributes were validated, so that a rejected item was still written;
empty sets left behind influenced the order of sets in the file.
---
 src/dliswriter/file/eflr_sets_dict.py                | 11 +++++++++++
 src/dliswriter/file/file.py                          |  8 ++++++--
 src/dliswriter/logical_record/core/eflr/eflr_item.py |  6 ++++--
 src/dliswriter/logical_record/eflr_types/channel.py  |  4 ++--
 4 files changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index 7859bc5..41050dd 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -36,12 +36,23 @@ class EFLRSetsDict(defaultdict):
     def try_add_set(self, eflr_set: EFLRSet) -> bool:
         """Try to register a new EFLRSet instance in the structure. Return True on success, False otherwise."""
 
+        self._drop_empty_sets()
+
         if eflr_set.set_name in self[eflr_set.__class__]:
             return False
         else:
             self[eflr_set.__class__][eflr_set.set_name] = eflr_set
             return True
 
+    def _drop_empty_sets(self) -> None:
+        """Drop the sets without any items, left behind by calls which failed to add their item."""
+
+        for set_type in list(self):
+            for set_name in [k for k, v in self[set_type].items() if not v.n_items]:
+                del self[set_type][set_name]
+            if not self[set_type]:
+                del self[set_type]
+
     def get_or_make_set(self, eflr_set_type: type[AnyEFLRSet], set_name: Optional[str] = None) -> AnyEFLRSet:
         """Given an EFLRSet subclass and name, either retrieve a relevant EFLRSet from the structure or create it.
 
diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 6cae98c..f1703c7 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -116,11 +116,15 @@ class DLISFile:
         for idx_lf, logical_file in enumerate(self.logical_files):
             yield logical_file.file_header_item.parent
 
-            yield from logical_file._eflr_sets[eflr_types.OriginSet].values()
+            yield from (
+                eflr_set
+                for eflr_set in logical_file._eflr_sets[eflr_types.OriginSet].values()
+                if eflr_set.n_items
+            )
 
             for set_type, set_dict in logical_file._eflr_sets.items():
                 if set_type not in (eflr_types.FileHeaderSet, eflr_types.OriginSet):
-                    yield from set_dict.values()
+                    yield from (eflr_set for eflr_set in set_dict.values() if eflr_set.n_items)
 
             yield from logical_file._no_format_frame_data
 
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index f5727e9..d1e578d 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -60,7 +60,6 @@ class EFLRItem:
 
         self._check_parent(parent)
         self._parent = parent  #: EFLRSet instance this item belongs to
-        self._parent.register_item(self)
 
         #: origin reference value, common for records sharing origin
         self._origin_reference: Union[int, None] = self._validate_origin_reference(origin_reference, allow_none=True)
@@ -73,6 +72,9 @@ class EFLRItem:
 
         self.set_attributes(**{k: v for k, v in kwargs.items() if v is not None})
 
+        # only register the item once everything about it has been accepted
+        self._parent.register_item(self)
+
     @property
     def parent(self) -> "EFLRSet":
         """EFLRSet instance that this EFLRItem is a part of."""
@@ -116,7 +118,7 @@ class EFLRItem:
         """Compute copy number of this ELFRItem, i.e. how many other objects of the same type and name there are."""
 
         items_with_the_same_name = filter(lambda o: o.name == self.name, self.parent.get_all_eflr_items())
-        return len(list(items_with_the_same_name)) - 1
+        return len(list(items_with_the_same_name))
 
     @classmethod
     def _check_parent(cls, parent: "EFLRSet") -> None:
diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index fb36a7a..b66c95d 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -73,11 +73,11 @@ class ChannelItem(EFLRItem, DimensionedItem):
         self.minimum_value = NumericAttribute('minimum_value', representation_code=RepC.FDOUBL, multivalued=True)
         self.maximum_value = NumericAttribute('maximum_value', representation_code=RepC.FDOUBL, multivalued=True)
 
-        super().__init__(name, parent=parent, **kwargs)
-
         self._dataset_name: Union[str, None] = dataset_name
         self._set_cast_dtype(cast_dtype)
 
+        super().__init__(name, parent=parent, **kwargs)
+
     @property
     def dataset_name(self) -> str:
         """Name of the data corresponding to this channel in the SourceDataWrapper."""
-- 
2.43.0


From 296c51619c686e360e9653530bee720d89bea430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:26:43 +0000
Subject: [PATCH 16/24] fix: number same-named objects of one type uniquely
 across the differently named sets of a logical file

---
 src/dliswriter/file/eflr_sets_dict.py                |  1 +
 src/dliswriter/logical_record/core/eflr/eflr_item.py |  3 ++-
 src/dliswriter/logical_record/core/eflr/eflr_set.py  | 12 ++++++++++++
 3 files changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index 41050dd..72ff518 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -42,6 +42,7 @@ class EFLRSetsDict(defaultdict):
             return False
         else:
             self[eflr_set.__class__][eflr_set.set_name] = eflr_set
+            eflr_set.sets_of_the_same_type = self[eflr_set.__class__]
             return True
 
     def _drop_empty_sets(self) -> None:
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index d1e578d..c6616e1 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -117,7 +117,8 @@ class EFLRItem:
     def _compute_copy_number(self) -> int:
         """Compute copy number of this ELFRItem, i.e. how many other objects of the same type and name there are."""
 
-        items_with_the_same_name = filter(lambda o: o.name == self.name, self.parent.get_all_eflr_items())
+        items_with_the_same_name = filter(lambda o: o.name == self.name,
+                                          self.parent.get_all_eflr_items_of_the_same_type())
         return len(list(items_with_the_same_name))
 
     @classmethod
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_set.py b/src/dliswriter/logical_record/core/eflr/eflr_set.py
index 0fc8543..b9c4dc6 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_set.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_set.py
@@ -32,6 +32,9 @@ class EFLRSet(LogicalRecord):
         self._set_type_struct = write_struct_ident(self.set_type)  # used in the header
         self._eflr_item_list: list[EFLRItem] = []  # instances of EFLRItem registered with this EFLRSet instance
 
+        #: all sets of this type in the logical file (by set name); maintained by EFLRSetsDict
+        self.sets_of_the_same_type: dict[Optional[str], "EFLRSet"] = {}
+
     def __str__(self) -> str:
         """Represent the EFLRSet instance as str."""
 
@@ -89,6 +92,15 @@ class EFLRSet(LogicalRecord):
 
         return self._eflr_item_list[:]  # copy
 
+    def get_all_eflr_items_of_the_same_type(self) -> list[EFLRItem]:
+        """Return a list of all EFLRItem instances of this type in the logical file, regardless of the set name."""
+
+        eflr_items = self.get_all_eflr_items()
+        for eflr_set in self.sets_of_the_same_type.values():
+            if eflr_set is not self:
+                eflr_items.extend(eflr_set.get_all_eflr_items())
+        return eflr_items
+
     @property
     def n_items(self) -> int:
         """Number of EFLRItem instances registered with this EFLRSet instance."""
-- 
2.43.0


From be538b26e15e3f7a55f461c8b93b9a9fc0dd9111 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:24 +0000
Subject: [PATCH 17/24] fix: check names assigned to existing objects and give
 renamed objects a unique copy number

---
 .../logical_record/core/eflr/eflr_item.py     | 20 +++++++++++++++++--
 1 file changed, 18 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/logical_record/core/eflr/eflr_item.py b/src/dliswriter/logical_record/core/eflr/eflr_item.py
index c6616e1..0e0742c 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_item.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_item.py
@@ -81,6 +81,21 @@ class EFLRItem:
 
         return self._parent
 
+    @property
+    def name(self) -> str:
+        """Name of the item - the one it is stored with in the created DLIS file."""
+
+        return self._name
+
+    @name.setter
+    def name(self, name: str) -> None:
+        """Set a new name. Assign a new copy number if the item has already had a different name."""
+
+        old_name = getattr(self, '_name', None)
+        self._name = validate_string(name)
+        if old_name is not None and old_name != name:
+            self._copy_number = self._compute_copy_number()
+
     @property
     def copy_number(self) -> int:
         """Copy number of this EFLRItem."""
@@ -117,9 +132,10 @@ class EFLRItem:
     def _compute_copy_number(self) -> int:
         """Compute copy number of this ELFRItem, i.e. how many other objects of the same type and name there are."""
 
-        items_with_the_same_name = filter(lambda o: o.name == self.name,
+        items_with_the_same_name = filter(lambda o: o is not self and o.name == self.name,
                                           self.parent.get_all_eflr_items_of_the_same_type())
-        return len(list(items_with_the_same_name))
+        used_copy_numbers = set(o.copy_number for o in items_with_the_same_name)
+        return next(i for i in range(len(used_copy_numbers) + 1) if i not in used_copy_numbers)
 
     @classmethod
     def _check_parent(cls, parent: "EFLRSet") -> None:
-- 
2.43.0


From d578b1d475c77e03706934950707304abbbadbc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:27:25 +0000
Subject: [PATCH 18/24] fix: check header and storage set identifiers also when
 they are changed later

---
 .../logical_record/eflr_types/file_header.py  | 23 ++++++++++++++-----
 .../logical_record/misc/storage_unit_label.py | 14 ++++++++++-
 2 files changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/dliswriter/logical_record/eflr_types/file_header.py b/src/dliswriter/logical_record/eflr_types/file_header.py
index 7895267..dcc3743 100644
--- a/src/dliswriter/logical_record/eflr_types/file_header.py
+++ b/src/dliswriter/logical_record/eflr_types/file_header.py
@@ -38,11 +38,6 @@ class FileHeaderItem(EFLRItem):
             identifier      :   '[A] single arbitrary character', identifying the File Header.
         """
 
-        if not isinstance(header_id, str):
-            raise TypeError(f"'header_id' should be a str; got {type(header_id)}")
-        if len(header_id) > self.header_id_length_limit:
-            raise ValueError(f"'header_id' length should not exceed {self.header_id_length_limit} characters")
-
         if not isinstance(sequence_number, int):
             raise TypeError(f"'sequence_number' should be an integer; got {type(sequence_number)}: {sequence_number}")
         if not 0 < sequence_number <= self.max_sequence_number:
@@ -54,11 +49,27 @@ class FileHeaderItem(EFLRItem):
         if len(identifier) != 1:
             raise ValueError(f"'identifier' should be a single character; got '{identifier}'")
 
-        self.header_id = validate_string(header_id)
+        self.header_id = header_id
         self.sequence_number = sequence_number
 
         super().__init__(name=identifier, parent=parent)
 
+    @property
+    def header_id(self) -> str:
+        """Descriptive identification of the Logical File."""
+
+        return self._header_id
+
+    @header_id.setter
+    def header_id(self, header_id: str) -> None:
+        """Check the provided header ID and set it."""
+
+        if not isinstance(header_id, str):
+            raise TypeError(f"'header_id' should be a str; got {type(header_id)}")
+        if len(header_id) > self.header_id_length_limit:
+            raise ValueError(f"'header_id' length should not exceed {self.header_id_length_limit} characters")
+        self._header_id = validate_string(header_id)
+
     def __repr__(self) -> str:
         return (f"{self.__class__.__name__}(header_id={self.header_id}, sequence_number={self.sequence_number}, "
                 f"parent=FileHeaderSet())")
diff --git a/src/dliswriter/logical_record/misc/storage_unit_label.py b/src/dliswriter/logical_record/misc/storage_unit_label.py
index 7dc54c6..c1528f9 100644
--- a/src/dliswriter/logical_record/misc/storage_unit_label.py
+++ b/src/dliswriter/logical_record/misc/storage_unit_label.py
@@ -39,12 +39,24 @@ class StorageUnitLabel:
         super().__init__()
 
         self.sequence_number = sequence_number
-        self.set_identifier = validate_string(set_identifier)
+        self.set_identifier = set_identifier
         self.max_record_length = max_record_length
 
         if max_record_length > self.max_record_length_limit:
             raise ValueError(f"Max record length cannot be larger than {self.max_record_length_limit}")
 
+    @property
+    def set_identifier(self) -> str:
+        """ID of the storage set."""
+
+        return self._set_identifier
+
+    @set_identifier.setter
+    def set_identifier(self, set_identifier: str) -> None:
+        """Check the provided set identifier and set it."""
+
+        self._set_identifier = validate_string(set_identifier)
+
     def __repr__(self) -> str:
         return (f"{self.__class__.__name__}(sequence_number={self.sequence_number}, "
                 f"set_identifier={self.set_identifier}, max_record_length={self.max_record_length})")
-- 
2.43.0


From 473efafddc9dd7b142f61dcf85518b7e0eb4de75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:10 +0000
Subject: [PATCH 19/24] fix: warn about non-compatible names outside of
 high-compatibility mode

---
 src/dliswriter/utils/internal/value_checkers.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/dliswriter/utils/internal/value_checkers.py b/src/dliswriter/utils/internal/value_checkers.py
index 05f5b4f..dd7cc98 100644
--- a/src/dliswriter/utils/internal/value_checkers.py
+++ b/src/dliswriter/utils/internal/value_checkers.py
@@ -1,9 +1,12 @@
+import logging
 import re
 from typing import Union
 
 from dliswriter.configuration import global_config
 
 
+logger = logging.getLogger(__name__)
+
 HC_STRING_PATTERN = re.compile(r"[A-Z0-9_-]+")
 
 
@@ -18,12 +21,12 @@ def validate_string(s: str) -> str:
     if not isinstance(s, str):
         raise TypeError(f"Expected a str, got {type(s)}: {s}")
 
-    if not global_config.high_compat_mode:
-        return s
-
     if HC_STRING_PATTERN.fullmatch(s) is None:
-        raise ValueError("In high-compatibility mode, strings can contain only uppercase characters, digits, "
-                         f"dashes, and underscores; got {repr(s)}")
+        if global_config.high_compat_mode:
+            raise ValueError("In high-compatibility mode, strings can contain only uppercase characters, digits, "
+                             f"dashes, and underscores; got {repr(s)}")
+        logger.warning("Strings containing other characters than uppercase characters, digits, dashes, "
+                       f"and underscores might cause issues in some DLIS viewers; got {repr(s)}")
 
     return s
 
-- 
2.43.0


From 3532baffdc480e31b498a8be5f4fd4f50269f711 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:36:41 +0000
Subject: [PATCH 20/24] fix: reject objects which would end up in a set of
 another logical file

---
 src/dliswriter/file/eflr_sets_dict.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index 72ff518..8494b64 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -34,10 +34,20 @@ class EFLRSetsDict(defaultdict):
         self[eflr_set.__class__][eflr_set.set_name] = eflr_set
 
     def try_add_set(self, eflr_set: EFLRSet) -> bool:
-        """Try to register a new EFLRSet instance in the structure. Return True on success, False otherwise."""
+        """Try to register a new EFLRSet instance in the structure. Return True on success, False otherwise.
+
+        A set containing objects can only be registered in one structure - that of the logical file of the objects.
+        """
 
         self._drop_empty_sets()
 
+        set_owner = eflr_set.sets_of_the_same_type
+        if set_owner is not self.get(eflr_set.__class__):
+            if eflr_set.n_items and set_owner:
+                raise RuntimeError(f"{eflr_set} already contains objects of another logical file; "
+                                   f"please use a different set name")
+            set_owner.pop(eflr_set.set_name, None)
+
         if eflr_set.set_name in self[eflr_set.__class__]:
             return False
         else:
-- 
2.43.0


From a37a51ae7544cd0126acef187a37359b841ae83c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:24 +0000
Subject: [PATCH 21/24] fix: treat an empty set name as no name and require
 exactly one file header per set

---
 src/dliswriter/file/eflr_sets_dict.py               | 2 ++
 src/dliswriter/file/file.py                         | 3 +++
 src/dliswriter/logical_record/core/eflr/eflr_set.py | 3 +++
 3 files changed, 8 insertions(+)

diff --git a/src/dliswriter/file/eflr_sets_dict.py b/src/dliswriter/file/eflr_sets_dict.py
index 8494b64..6fdd1de 100644
--- a/src/dliswriter/file/eflr_sets_dict.py
+++ b/src/dliswriter/file/eflr_sets_dict.py
@@ -75,6 +75,8 @@ class EFLRSetsDict(defaultdict):
             An EFLRSet instance of given subtype and name, registered in the structure.
         """
 
+        set_name = set_name or None  # an empty name is written in the same way as no name
+
         # dict mapping set names on EFLRSet (subclass) instances
         eflr_set_dict: dict[Union[str, None], AnyEFLRSet] = self[eflr_set_type]
 
diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index f1703c7..4b1efd5 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -2188,6 +2188,9 @@ class LogicalFile:
         if not self.file_header:
             raise RuntimeError("No file header defined for the file")
 
+        if self.file_header.parent.n_items != 1:
+            raise RuntimeError("Exactly one file header should be defined in the set")
+
         if not self.defining_origin:
             raise RuntimeError("No origin defined for the file")
 
diff --git a/src/dliswriter/logical_record/core/eflr/eflr_set.py b/src/dliswriter/logical_record/core/eflr/eflr_set.py
index b9c4dc6..1135170 100644
--- a/src/dliswriter/logical_record/core/eflr/eflr_set.py
+++ b/src/dliswriter/logical_record/core/eflr/eflr_set.py
@@ -28,6 +28,9 @@ class EFLRSet(LogicalRecord):
 
         super().__init__()
 
+        if set_name is not None and not isinstance(set_name, str):
+            raise TypeError(f"'set_name' should be a str; got {type(set_name)}: {set_name}")
+
         self.set_name = set_name
         self._set_type_struct = write_struct_ident(self.set_type)  # used in the header
         self._eflr_item_list: list[EFLRItem] = []  # instances of EFLRItem registered with this EFLRSet instance
-- 
2.43.0


From 7f3b5a7436fdd8a52f8858375562a507e4cbfa4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:42:45 +0000
Subject: [PATCH 22/24] fix: count file headers among the records to be
 written, so that slow writes of many logical files do not fail

---
 src/dliswriter/file/file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/file/file.py b/src/dliswriter/file/file.py
index 4b1efd5..c2cabcf 100644
--- a/src/dliswriter/file/file.py
+++ b/src/dliswriter/file/file.py
@@ -169,7 +169,7 @@ class DLISFile:
                 ]
             )
 
-        n = 0
+        n = len(self.logical_files)  # file headers
         for eflr_set_type in self._eflr_sets:
             n += len(list(self._eflr_sets.get_all_items_for_set_type(eflr_set_type)))
 
-- 
2.43.0


From ef8c18049a4b4462c7b02bb32d9314a882d3606c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:20 +0000
Subject: [PATCH 23/24] fix: reject integers which cannot be represented
 exactly instead of rounding them

---
 src/dliswriter/logical_record/core/attribute/subtypes.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/dliswriter/logical_record/core/attribute/subtypes.py b/src/dliswriter/logical_record/core/attribute/subtypes.py
index cd2bd9a..a921176 100644
--- a/src/dliswriter/logical_record/core/attribute/subtypes.py
+++ b/src/dliswriter/logical_record/core/attribute/subtypes.py
@@ -1,5 +1,5 @@
 import logging
-from numbers import Number
+from numbers import Integral, Number
 from datetime import datetime
 from typing import Union, Optional, Any, overload
 
@@ -247,7 +247,11 @@ class NumericAttribute(Attribute):
         if not isinstance(value, Number):
             raise TypeError(f"Cannot convert a {type(value)} object ({value}) to float")
 
-        return float(value)
+        float_value = float(value)
+        if isinstance(value, Integral) and float_value != int(value):
+            raise ValueError(f"{value} cannot be represented exactly as float")
+
+        return float_value
 
     def _convert_number(self, value: number_type) -> number_type:
         """Convert a provided value according to the attribute's representation code (or as a float)."""
-- 
2.43.0


From 74c9ce37de935c918a210cf9cb72faf0020559a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:22 +0000
Subject: [PATCH 24/24] fix: keep an empty long name set for a channel instead
 of replacing it with the default

---
 src/dliswriter/logical_record/eflr_types/channel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/dliswriter/logical_record/eflr_types/channel.py b/src/dliswriter/logical_record/eflr_types/channel.py
index b66c95d..92bd2a2 100644
--- a/src/dliswriter/logical_record/eflr_types/channel.py
+++ b/src/dliswriter/logical_record/eflr_types/channel.py
@@ -208,7 +208,7 @@ class ChannelItem(EFLRItem, DimensionedItem):
 
         self._check_axis_vs_dimension()
 
-        if not self.long_name.value:
+        if self.long_name.value is None:
             logger.debug(f"Long name of channel '{self.name}' not specified; setting it to to the channel's name")
             self.long_name.set_default(self.name)
 
-- 
2.43.0

