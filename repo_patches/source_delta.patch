From 154ab6e513b63887572880a1f97ebb6d27a1d807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:24 +0000
Subject: [PATCH 01/95] fix: Section must not share its buffer with the caller
 or other sections

A bytearray passed as data (and the mutable default) was stored by
reference, so joining adjacent sections grew the caller's buffer, the
caller's sections and every default constructed Section.
---
 objutils/section.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/section.py b/objutils/section.py
index a1e8ea6..4f3424d 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -154,7 +154,7 @@ def filler(ch, n):
 
 def _data_converter(data):
     if isinstance(data, bytearray):
-        pass  # no conversion needed.
+        data = copy(data)  # never share the buffer with the caller.
     elif isinstance(data, int):
         raise ValueError("single int not permitted")
     elif isinstance(data, str):
@@ -186,7 +186,7 @@ class Section:
     """
 
     start_address = attr.ib(type=int, eq=True, order=True, default=0)
-    data = attr.ib(default=bytearray(), converter=_data_converter, eq=True, order=True)
+    data = attr.ib(factory=bytearray, converter=_data_converter, eq=True, order=True)
 
     def __attrs_post_init__(self):
         self.repr = reprlib.Repr()
-- 
2.43.0


From 2f74b1670c086596c447bf8a8e687464cc125cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:24 +0000
Subject: [PATCH 02/95] fix: join_sections() must not drain the list passed in

---
 objutils/section.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/objutils/section.py b/objutils/section.py
index 4f3424d..95d7cb8 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -433,8 +433,7 @@ def join_sections(sections):
     else:
         result_sections = []
     prev_section = Section()
-    while sections:
-        section = sections.pop(0)
+    for section in sections:
         if not isinstance(section, Section):
             raise TypeError("'{}' is not a 'Section' instance", section)
         if section.start_address == prev_section.start_address + prev_section.length and result_sections:
-- 
2.43.0


From 718dad160244c02533c500f5e4546bc757ff47a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:54 +0000
Subject: [PATCH 03/95] fix: insert_section() overlap test only looked at the
 first and last address

A block enclosing an existing section was accepted, and blocks made of
multi-byte items were checked with their item count instead of their size.
---
 objutils/image.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/objutils/image.py b/objutils/image.py
index abf2f87..2f20300 100644
--- a/objutils/image.py
+++ b/objutils/image.py
@@ -242,14 +242,16 @@ class Image:
         start_address = (
             start_address if start_address is not None else self.address
         )  # If Address omitted, create continuous address space.
-        if self._address_contained(start_address, len(data)):
-            raise InvalidAddressError("Overlapping address-space")
         if isinstance(data, str):
             data = [ord(x) for x in data]  # array.array('B',data)
-        self._sections.add(Section(start_address, data))
+        section = Section(start_address, data)
+        end_address = start_address + section.length  # Bytes, not items.
+        if any(sec.start_address < end_address and start_address < sec.start_address + sec.length for sec in self.sections):
+            raise InvalidAddressError("Overlapping address-space")
+        self._sections.add(section)
         if join:
             self.join_sections()
-        self.address = start_address + len(data)
+        self.address = end_address
 
     @property
     def sections(self):
-- 
2.43.0


From 02d600851ef4e223cd99ccac991ff5339238061c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:23 +0000
Subject: [PATCH 04/95] fix: read_string()/write_string() bounds checking

write_string() past the end grew the section and then failed with an
IndexError, read_string() with an explicit length silently truncated.
---
 objutils/section.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/objutils/section.py b/objutils/section.py
index 95d7cb8..f5905c0 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -334,6 +334,8 @@ class Section:
             pos = self.data[offset:].find(b"\x00")
         else:
             pos = length
+            if offset + length > self.length:
+                raise InvalidAddressError(f"read_string(0x{addr:08x}) access out of bounds.")
         if pos == -1:
             raise TypeError("Unterminated String!!!")  # TODO: Testcase.
         return self.data[offset : offset + pos].decode(encoding=encoding)
@@ -342,11 +344,10 @@ class Section:
         offset = addr - self.start_address
         if offset < 0:
             raise InvalidAddressError(f"write_string(0x{addr:08x}) access out of bounds.")
-        if PYTHON_VERSION.major == 3:
-            self.data[offset : offset + len(value)] = bytes(value, encoding=encoding)
-        else:
-            self.data[offset : offset + len(value)] = bytes(value)
-        self.data[offset + len(value)] = 0
+        data = bytes(value, encoding=encoding) + b"\x00"
+        if offset + len(data) > self.length:
+            raise InvalidAddressError(f"write_string(0x{addr:08x}) access out of bounds.")
+        self.data[offset : offset + len(data)] = data
 
     def write_ndarray(self, addr, array, order=None, **kws):
         """ """
-- 
2.43.0


From 05c6e394330ac5b53037ed91a7802a4ec0c0978b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:24 +0000
Subject: [PATCH 05/95] fix: Section.write() with multi-byte items must not
 grow the section

---
 objutils/section.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/objutils/section.py b/objutils/section.py
index f5905c0..97257a6 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -257,6 +257,7 @@ class Section:
 
         data: array-like
         """
+        data = _data_converter(data)
         length = len(data)
         offset = addr - self.start_address
         if offset < 0:
-- 
2.43.0


From 9215717204d79c1536d7c458c7b985f75c9c4a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:26 +0000
Subject: [PATCH 06/95] fix: numeric arrays of length zero are empty

---
 objutils/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/section.py b/objutils/section.py
index 97257a6..cae53be 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -226,7 +226,7 @@ class Section:
         """ """
         fmt, bo = self._verify_dtype(dtype)
 
-        if length > 1:
+        if length != 1:
             return f"{BYTEORDER.get(bo)}{length}{FORMATS.get(fmt)}"
         else:
             return f"{BYTEORDER.get(bo)}{FORMATS.get(fmt)}"
-- 
2.43.0


From a0c995766c056ac4c3fcfb98d04218695da6b4ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:45 +0000
Subject: [PATCH 07/95] fix: bit_mask can be used with dtype 'byte'

---
 objutils/section.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/section.py b/objutils/section.py
index cae53be..f2427e7 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -282,7 +282,7 @@ class Section:
 
     def apply_bitmask(self, data, dtype, bit_mask):
         """ """
-        dtype, byteorder = dtype.lower().strip().split("_")
+        dtype, byteorder = self._verify_dtype(dtype)
         byteorder = "little" if byteorder == "le" else "big"
         # type_size = TYPE_SIZES.get(dtype)
         data_size = len(data)
-- 
2.43.0


From 70ea4964db1b99869454a570596792f561e22d95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:48 +0000
Subject: [PATCH 08/95] fix: reading a file without data records raised a
 TypeError instead of yielding an empty image

---
 objutils/hexfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index cabd088..2c203d0 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -261,7 +261,7 @@ class Reader(BaseType):
             return Image(sections=join_sections(sections), meta=meta_data)
         else:
             self.error("File seems to be invalid.")
-            return Image([], valid=False)
+            return Image([], meta=meta_data)
 
     def _address_space(self, value):
         if value < 2**16:
-- 
2.43.0


From d202a85078a06ab4b29c2bf60d135712ca2a3898 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:50 +0000
Subject: [PATCH 09/95] fix: images ending at the last address of the address
 space can be encoded

The (exclusive) end address was used to determine the number of address
bits, so an image occupying e.g. 0xFFFF (16 bit formats) or 0xFFFFFFFF
(S-Records, Intel HEX) was rejected.
---
 objutils/hexfile.py | 5 ++---
 objutils/sig.py     | 2 +-
 objutils/srec.py    | 2 +-
 objutils/tek.py     | 2 +-
 4 files changed, 5 insertions(+), 6 deletions(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 2c203d0..873c9b3 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -24,7 +24,6 @@ __copyright__ = """
   51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 """
 
-import math
 import os
 import re
 from collections import defaultdict, namedtuple
@@ -368,8 +367,8 @@ class Writer(BaseType):
             last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
         else:
             last_segment = image
-        highest_address = last_segment.start_address + last_segment.length
-        return int(math.ceil(math.log(highest_address + 1) / math.log(2)))
+        highest_address = last_segment.start_address + last_segment.length - 1  # Last occupied address.
+        return max(highest_address, 0).bit_length()
 
     def post_processing(self, data):
         if not data.endswith(b"\n"):
diff --git a/objutils/sig.py b/objutils/sig.py
index 23c7120..9c3f8a6 100644
--- a/objutils/sig.py
+++ b/objutils/sig.py
@@ -65,7 +65,7 @@ class Writer(hexfile.Writer):
         )
         data_checksum = checksums.rotatedXOR(row, 8, checksums.ROTATE_LEFT)
         line = f":{address:04X}{length:02X}{address_checksum:02X}{Writer.hex_bytes(row)}{data_checksum:02X}"
-        self.last_address = address + length
+        self.last_address = (address + length) & 0xFFFF
         return line
 
     def compose_footer(self, meta):
diff --git a/objutils/srec.py b/objutils/srec.py
index 229758e..175896f 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -153,7 +153,7 @@ class Writer(hexfile.Writer):
                 last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
             else:
                 last_segment = image
-            highest_address = last_segment.start_address + last_segment.length
+            highest_address = last_segment.start_address + last_segment.length - 1  # Last occupied address.
             if highest_address <= 0x000000FFFF:
                 self.record_type = 1
             elif highest_address <= 0x00FFFFFF:
diff --git a/objutils/tek.py b/objutils/tek.py
index 02dd6d0..d0cee8b 100644
--- a/objutils/tek.py
+++ b/objutils/tek.py
@@ -68,5 +68,5 @@ class Writer(hexfile.Writer):
 
         data_checksum = checksums.nibble_sum(row)
         line = f"/{address:04X}{length:02X}{address_checksum:02X}{Writer.hex_bytes(row)!s}{data_checksum:02X}"
-        self.last_address = address + length
+        self.last_address = (address + length) & 0xFFFF
         return line
-- 
2.43.0


From f14069f2fbdf7ffd1858437369f401ee36095e48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:11 +0000
Subject: [PATCH 10/95] fix: honour writer options, and do not truncate the
 target before encoding succeeded

dump()/dumps() ignored every codec option (record_type, s5record,
start_address, ...), and dump() opened - i.e. truncated - the target
file before it was known that the image could be encoded.
---
 objutils/hexfile.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 873c9b3..a900267 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -329,9 +329,10 @@ class Writer(BaseType):
         self.logger = Logger("Writer")
 
     def dump(self, fp, image, row_length=16, **kws):  # TODO: rename to bytesPerRow!
+        data = self.dumps(image, row_length, **kws)
         if isinstance(fp, str):
             fp = open(fp, "wb")
-        fp.write(self.dumps(image, row_length))
+        fp.write(data)
         if hasattr(fp, "close"):
             fp.close()
 
@@ -342,7 +343,7 @@ class Writer(BaseType):
             return b""
         if self.calculate_address_bits(image) > self.MAX_ADDRESS_BITS:
             raise AddressRangeToLargeError("could not encode image.")
-        # params = self.set_parameters(**kws)
+        self.set_parameters(**kws)
         self.pre_processing(image)
         header = self.compose_header(image.meta if hasattr(image, "meta") else {})
         if header:
-- 
2.43.0


From 151fe226b2b840bf8a3c0188e1076f55da79609f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:40 +0000
Subject: [PATCH 11/95] fix: refuse rows which do not fit into a record instead
 of writing corrupt records

---
 objutils/emon52.py  | 1 +
 objutils/hexfile.py | 6 ++++++
 objutils/ihex.py    | 1 +
 objutils/mostec.py  | 1 +
 objutils/sig.py     | 1 +
 objutils/srec.py    | 1 +
 objutils/tek.py     | 1 +
 7 files changed, 12 insertions(+)

diff --git a/objutils/emon52.py b/objutils/emon52.py
index 87da811..83ea32b 100644
--- a/objutils/emon52.py
+++ b/objutils/emon52.py
@@ -71,6 +71,7 @@ class Writer(hexfile.Writer):
     """ """
 
     MAX_ADDRESS_BITS = 16
+    MAX_ROW_LENGTH = 255
 
     def compose_row(self, address, length, row):
         checksum = sum(row) % 65536
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index a900267..7c453e2 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -325,6 +325,8 @@ class Reader(BaseType):
 
 
 class Writer(BaseType):
+    MAX_ROW_LENGTH = None  # Number of data bytes a single record can hold, None means unlimited.
+
     def __init__(self):
         self.logger = Logger("Writer")
 
@@ -338,6 +340,8 @@ class Writer(BaseType):
 
     def dumps(self, image, row_length=16, **kws):
         result = []
+        if row_length < 1:
+            raise ValueError("row_length must be >= 1.")
         self.row_length = row_length
         if hasattr(image, "sections") and not image.sections:
             return b""
@@ -353,6 +357,8 @@ class Writer(BaseType):
             rows = slicer(section.data, row_length, lambda x: [int(y) for y in x])
             for row in rows:
                 length = len(row)
+                if self.MAX_ROW_LENGTH is not None and length > self.MAX_ROW_LENGTH:
+                    raise InvalidRecordLengthError(f"row_length {length} exceeds the {self.MAX_ROW_LENGTH} bytes a record can hold.")
                 result.append(self.compose_row(address, length, row))
                 address += row_length
         footer = self.compose_footer(image.meta if hasattr(image, "meta") else {})
diff --git a/objutils/ihex.py b/objutils/ihex.py
index 7337044..e014b3d 100644
--- a/objutils/ihex.py
+++ b/objutils/ihex.py
@@ -113,6 +113,7 @@ def divmod(a, b):
 
 class Writer(hexfile.Writer):
     MAX_ADDRESS_BITS = 32
+    MAX_ROW_LENGTH = 255
     checksum = partial(lrc, width=8, comp=COMPLEMENT_TWOS)
 
     def pre_processing(self, image):
diff --git a/objutils/mostec.py b/objutils/mostec.py
index c11f867..2cd8b4b 100644
--- a/objutils/mostec.py
+++ b/objutils/mostec.py
@@ -56,6 +56,7 @@ class Reader(hexfile.Reader):
 
 class Writer(hexfile.Writer):
     MAX_ADDRESS_BITS = 16
+    MAX_ROW_LENGTH = 255
 
     def compose_row(self, address, length, row):
         checksum = checksums.lrc(
diff --git a/objutils/sig.py b/objutils/sig.py
index 9c3f8a6..c692cb3 100644
--- a/objutils/sig.py
+++ b/objutils/sig.py
@@ -56,6 +56,7 @@ class Reader(hexfile.Reader):
 
 class Writer(hexfile.Writer):
     MAX_ADDRESS_BITS = 16
+    MAX_ROW_LENGTH = 255
 
     def compose_row(self, address, length, row):
         address_checksum = checksums.rotatedXOR(
diff --git a/objutils/srec.py b/objutils/srec.py
index 175896f..eb83c80 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -162,6 +162,7 @@ class Writer(hexfile.Writer):
                 self.record_type = 3
         self.address_mask = f"%0{(self.record_type + 1) * 2:d}X"
         self.offset = self.record_type + 2
+        self.MAX_ROW_LENGTH = 255 - self.offset  # Byte count includes address and checksum.
 
     def srecord(self, record_type, length, address, data=None):
         if data is None:
diff --git a/objutils/tek.py b/objutils/tek.py
index d0cee8b..e41382b 100644
--- a/objutils/tek.py
+++ b/objutils/tek.py
@@ -56,6 +56,7 @@ class Reader(hexfile.Reader):
 
 class Writer(hexfile.Writer):
     MAX_ADDRESS_BITS = 16
+    MAX_ROW_LENGTH = 255
 
     def compose_footer(self, meta):
         return "/{:04X}00{:02X}".format(
-- 
2.43.0


From 265a67764a9df3ab773bfe0c709fd2e13450eebb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:42 +0000
Subject: [PATCH 12/95] fix: refuse S-Record types which cannot hold the
 addresses of the image

---
 objutils/srec.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/objutils/srec.py b/objutils/srec.py
index eb83c80..b3a008a 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -148,18 +148,22 @@ class Writer(hexfile.Writer):
     checksum = partial(lrc, width=8, comp=COMPLEMENT_ONES)
 
     def pre_processing(self, image):
+        if hasattr(image, "sections"):
+            last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
+        else:
+            last_segment = image
+        highest_address = last_segment.start_address + last_segment.length - 1  # Last occupied address.
         if self.record_type is None:
-            if hasattr(image, "sections"):
-                last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
-            else:
-                last_segment = image
-            highest_address = last_segment.start_address + last_segment.length - 1  # Last occupied address.
             if highest_address <= 0x000000FFFF:
                 self.record_type = 1
             elif highest_address <= 0x00FFFFFF:
                 self.record_type = 2
             elif highest_address <= 0xFFFFFFFF:
                 self.record_type = 3
+        if self.record_type not in (1, 2, 3):
+            raise hexfile.Invalidrecord_typeError(f"Invalid record_type {self.record_type!r}.")
+        if max(highest_address, self.start_address or 0) >> ((self.record_type + 1) * 8):
+            raise hexfile.AddressRangeToLargeError(f"could not encode image using S{self.record_type} records.")
         self.address_mask = f"%0{(self.record_type + 1) * 2:d}X"
         self.offset = self.record_type + 2
         self.MAX_ROW_LENGTH = 255 - self.offset  # Byte count includes address and checksum.
-- 
2.43.0


From a7f5870e3158ce6ab481d24722c3521c231fbf88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:00 +0000
Subject: [PATCH 13/95] fix: S0 records have a 16-bit address field

With S2/S3 data records the header was written with a 24/32-bit address,
which shifted the module name when the file was read back.
---
 objutils/srec.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/objutils/srec.py b/objutils/srec.py
index b3a008a..1a380fc 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -171,10 +171,14 @@ class Writer(hexfile.Writer):
     def srecord(self, record_type, length, address, data=None):
         if data is None:
             data = []
-        length += self.offset
+        if record_type == 0:  # Header records have a 16-bit address field, regardless of the data records.
+            offset, address_mask = 3, "%04X"
+        else:
+            offset, address_mask = self.offset, self.address_mask
+        length += offset
         address_bytes = utils.int_to_array(address)
         checksum = self.checksum(make_list(address_bytes, length, data))
-        mask = f"S%u%02X{self.address_mask!s}%s%02X"
+        mask = f"S%u%02X{address_mask!s}%s%02X"
         return mask % (record_type, length, address, Writer.hex_bytes(data), checksum)
 
     def compose_row(self, address, length, row):
-- 
2.43.0


From 947a1b430591a5f7952942c7b49b1ed2779b0816 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:01 +0000
Subject: [PATCH 14/95] fix: S-Record reader accepts the S5 records of the
 S-Record writer

---
 objutils/srec.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/objutils/srec.py b/objutils/srec.py
index 1a380fc..7953d77 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -55,6 +55,8 @@ class Reader(hexfile.Reader):
         (S1, "S1LLAAAADDCC"),
         (S2, "S2LLAAAAAADDCC"),
         (S3, "S3LLAAAAAAAADDCC"),
+        (S5, "S5LLAAAAAAAACC"),
+        (S5, "S5LLAAAAAACC"),
         (S5, "S5LLAAAACC"),
         (S7, "S7LLAAAAAAAACC"),
         (S8, "S8LLAAAAAACC"),
@@ -78,7 +80,9 @@ class Reader(hexfile.Reader):
 
     def check_line(self, line, format_type):
         # todo: Fkt.!!!
-        if format_type in (S0, S1, S5, S9):
+        if format_type == S5:  # 16, 24 or 32-bit record count.
+            checksum_of_address = sum(utils.int_to_array(line.address))
+        elif format_type in (S0, S1, S9):
             checksum_of_address = ((line.address & 0xFF00) >> 8) + (line.address & 0xFF)
         elif format_type in (S2, S8):
             checksum_of_address = ((line.address & 0xFF0000) >> 16) + ((line.address & 0xFF00) >> 8) + (line.address & 0xFF)
-- 
2.43.0


From eb0bcf4a134e7077746f97b2181d89980cb73ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:40 +0000
Subject: [PATCH 15/95] fix: Intel HEX writer lost or misplaced data around 64K
 boundaries

An extended address record was only written if the 16-bit offset was not
contiguous, so a section whose offset happened to continue the previous
one ended up in the wrong 64K block. Records also crossed 64K boundaries,
where addresses wrap around. Error messages used an invalid format code.
---
 objutils/ihex.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/objutils/ihex.py b/objutils/ihex.py
index e014b3d..4c3fb37 100644
--- a/objutils/ihex.py
+++ b/objutils/ihex.py
@@ -88,7 +88,7 @@ class Reader(hexfile.Reader):
                 line.add_processing_instruction(("ip", ip))
                 self.debug(f"START_SEGMENT_ADDRESS: {hex(cs)}:{hex(ip)}")
             else:
-                self.error(f"Bad Segment Address at line %{line.line_number:u}.")
+                self.error(f"Bad Segment Address at line #{line.line_number:d}.")
         elif line.type == EXTENDED_LINEAR_ADDRESS:
             self.calculate_extended_address(line, 16, "Linear")
         elif line.type == START_LINEAR_ADDRESS:
@@ -101,7 +101,7 @@ class Reader(hexfile.Reader):
         elif line.type == EOF:
             pass
         else:
-            self.warn(f"Invalid record type [{line.type:u}] at line {line.line_number:u}")
+            self.warn(f"Invalid record type [{line.type:d}] at line {line.line_number:d}")
 
     def _address_calculator(self, x):
         return x
@@ -118,13 +118,19 @@ class Writer(hexfile.Writer):
 
     def pre_processing(self, image):
         self.previosAddress = None
+        self.previousSegment = 0
         self.start_address = 0
 
     def compose_row(self, address, length, row):
+        # Addresses wrap at 64K boundaries, a record must not cross them.
+        room = 0x10000 - (address % 0x10000)
+        if length > room:
+            return f"{self.compose_row(address, room, row[:room])}\n{self.compose_row(address + room, length - room, row[room:])}"
         result = ""
         seg, offs = divmod(address, 0x10000)
+        segment = int(seg)
         hi, lo = self.word_to_bytes(address)
-        if offs != self.previosAddress:
+        if offs != self.previosAddress or segment != self.previousSegment:
             # print("NEQ: {0:04x} [{1:04x}:{2:04x}]".format(address, seg, offs))
             if address > 0xFFFF:
                 if address > 0xFFFFF:
@@ -137,6 +143,7 @@ class Writer(hexfile.Writer):
         address = offs
         checksum = self.checksum(list((length, hi, lo)) + list(row))
         self.previosAddress = offs + length
+        self.previousSegment = segment
         result += f":{length:02X}{address:04X}{DATA:02X}{Writer.hex_bytes(row)!s}{checksum:02X}"
         return result
 
-- 
2.43.0


From 5d38c6ce7c4cc5d05346153d963a6a1219b85812 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:42 +0000
Subject: [PATCH 16/95] fix: FPC records carry a hexadecimal byte count and are
 padded to 32-bit groups

The count was written as the decimal number length - 2, which is right
for 12 to 17 data bytes only; anything else could not be read back.
---
 objutils/fpc.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/objutils/fpc.py b/objutils/fpc.py
index 89affb8..d92f3ee 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -134,6 +134,7 @@ class Reader(hexfile.Reader):
 
 class Writer(hexfile.Writer):
     MAX_ADDRESS_BITS = 16
+    MAX_ROW_LENGTH = 251  # Length field includes the address.
 
     def compose_row(self, address, length, row):
         tmp = 0  # TODO: format type!?
@@ -142,11 +143,10 @@ class Writer(hexfile.Writer):
             8,
             checksums.COMPLEMENT_TWOS,
         )
-        if length < self.row_length:
-            lengthToPad = self.row_length - length
-            padding = [0] * (lengthToPad)
-            row.extend(padding)
-        line = f"{checksum:02X}{length - 2}0000{address:08X}{Writer.hex_bytes(row)}"
+        padded_length = max(length, self.row_length)
+        padded_length += -padded_length % 4  # Records are made of 32-bit groups.
+        padding = [0] * (padded_length - length)
+        line = f"{checksum:02X}{length + 4:02X}0000{address:08X}{Writer.hex_bytes(row + padding)}"
         return line
 
     def compose_footer(self, meta):
-- 
2.43.0


From 1147ed1d203604889581d9764d080dc713f45ec4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:50:56 +0000
Subject: [PATCH 17/95] fix: FPC reader: advance address after incremental
 records, skip blank lines

---
 objutils/fpc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/objutils/fpc.py b/objutils/fpc.py
index d92f3ee..dc52513 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -61,6 +61,8 @@ class Reader(hexfile.Reader):
         out_lines = []
         for line in fp.readlines():
             line = line.strip()
+            if not line:
+                continue
             startSym, line = line[0], line[1:]
 
             if startSym != PREFIX:
@@ -104,6 +106,7 @@ class Reader(hexfile.Reader):
         elif format_type == DATA_INC:
             tmp = 1
             line.address = self.last_address
+            self.last_address += line.length
         elif format_type == DATA_REL:
             self.error("relative adressing not supported.")
             tmp = 2
-- 
2.43.0


From 02766872e1eac466967ddf867dcfc9596cf941f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:25 +0000
Subject: [PATCH 18/95] fix: extended Tektronix writer emits the five digit
 addresses its reader expects

---
 objutils/etek.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/objutils/etek.py b/objutils/etek.py
index ed55daa..44cc48f 100644
--- a/objutils/etek.py
+++ b/objutils/etek.py
@@ -47,7 +47,7 @@ class Reader(hexfile.Reader):
 
     def check_line(self, line, format_type):
         if format_type == DATA:
-            line.length = (line.length / 2) - 5
+            line.length = (line.length // 2) - 5
             checksum = checksums.nibble_sum(
                 utils.make_list(
                     utils.int_to_array(line.address),
@@ -76,10 +76,11 @@ class Reader(hexfile.Reader):
 
 
 class Writer(hexfile.Writer):
-    MAX_ADDRESS_BITS = 24
+    MAX_ADDRESS_BITS = 20  # Five digits.
+    MAX_ROW_LENGTH = 122  # Record length counts digits, including ten for the remaining fields.
 
     def compose_row(self, address, length, row):
         checksum = checksums.nibble_sum(utils.make_list(utils.int_to_array(address), 6, ((length + 5) * 2), row))
 
-        line = f"%{(length + 5) * 2:02X}6{checksum:02X}{address:04X}{Writer.hex_bytes(row)!s}"
+        line = f"%{(length + 5) * 2:02X}6{checksum:02X}{address:05X}{Writer.hex_bytes(row)!s}"
         return line
-- 
2.43.0


From dbc10a8c279b190384a9b381b1e3a29d216c2575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:26 +0000
Subject: [PATCH 19/95] fix: plain binary codec: reader and integer fill bytes
 were unusable

Also do not open (truncate) the target before encoding succeeded.
---
 objutils/binfile.py | 13 ++++++++-----
 objutils/shf.py     |  3 ++-
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/objutils/binfile.py b/objutils/binfile.py
index cdbf28d..5ba616f 100644
--- a/objutils/binfile.py
+++ b/objutils/binfile.py
@@ -50,7 +50,7 @@ class Reader:
             fp = open(fp, "rb")
         data = fp.read()
         sec = Section(address, data)
-        img = Image([sec], valid=True)
+        img = Image([sec])
         if hasattr(fp, "close"):
             fp.close()
         return img
@@ -67,19 +67,22 @@ class Reader:
 
 class Writer:
     def dump(self, fp, image, filler=b"\xff", **kws):
+        data = self.dumps(image, filler)
         if isinstance(fp, str):
             fp = open(fp, "wb")
-        fp.write(self.dumps(image, filler))
+        fp.write(data)
         if hasattr(fp, "close"):
             fp.close()
 
     def dumps(self, image, filler=b"\xff", **kws):
         if not isinstance(filler, (bytes, int)):
             raise TypeError("filler must be of type 'bytes' or 'int'")
-        if isinstance(filler, bytes) and len(filler) > 1:
+        if isinstance(filler, bytes) and len(filler) != 1:
             raise TypeError("filler must be a single byte")
-        elif isinstance(filler, int) and filler > 255:
-            raise ValueError("filler must be in range 0..255")
+        elif isinstance(filler, int):
+            if not 0 <= filler <= 255:
+                raise ValueError("filler must be in range 0..255")
+            filler = bytes([filler])
         result = bytearray()
         previous_address = None
         previous_length = None
diff --git a/objutils/shf.py b/objutils/shf.py
index faa4f26..bf7a054 100644
--- a/objutils/shf.py
+++ b/objutils/shf.py
@@ -150,9 +150,10 @@ class Writer:
     logger = Logger(__name__)
 
     def dump(self, fp, image, **kws):
+        data = self.dumps(image)
         if isinstance(fp, str):
             fp = open(fp, "wb")
-        fp.write(self.dumps(image))
+        fp.write(data)
         if hasattr(fp, "close"):
             fp.close()
 
-- 
2.43.0


From 047d80b927bf73231531d5cd16aab6d5e9298888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:28 +0000
Subject: [PATCH 20/95] fix: diff_bin() lost a modification at the end of the
 common range

---
 objutils/utils/diff.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/utils/diff.py b/objutils/utils/diff.py
index 56b6c3c..54e7543 100644
--- a/objutils/utils/diff.py
+++ b/objutils/utils/diff.py
@@ -90,6 +90,8 @@ def diff_bin(a, b):
             if diff_bytes_a:
                 tmp.append(BinDiff("M", start_offset, diff_bytes_a, diff_bytes_b))
                 diff_bytes_a, diff_bytes_b = bytearray(), bytearray()
+    if diff_bytes_a:
+        tmp.append(BinDiff("M", start_offset, diff_bytes_a, diff_bytes_b))
     if lb > la:
         tmp.append(BinDiff("A", len(a), None, b[-(lb - la) :]))
     elif lb < la:
-- 
2.43.0


From ea4e991cfadbb4a8a72805a41f622b895dfe2a28 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:05 +0000
Subject: [PATCH 21/95] fix: SLEB128 decoding of positive values of less than
 32 bits

---
 objutils/dwarf/encoding.py | 2 +-
 objutils/readers.py        | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/dwarf/encoding.py b/objutils/dwarf/encoding.py
index 0d78ef1..14b2be4 100644
--- a/objutils/dwarf/encoding.py
+++ b/objutils/dwarf/encoding.py
@@ -105,7 +105,7 @@ class SLEB(Construct):
             idx += 1
             if bval & 0x80 == 0:
                 break
-        if (shift < 32) or (bval & 0x40) == 0x40:
+        if (bval & 0x40) == 0x40:
             mask = -(1 << (idx * 7))
             result |= mask
         return result
diff --git a/objutils/readers.py b/objutils/readers.py
index bfdbd51..a69bef3 100644
--- a/objutils/readers.py
+++ b/objutils/readers.py
@@ -114,7 +114,7 @@ class PlainBinaryReader:
             idx += 1
             if bval & 0x80 == 0:
                 break
-        if (shift < 32) or (bval & 0x40) == 0x40:
+        if (bval & 0x40) == 0x40:
             mask = -(1 << (idx * 7))
             result |= mask
         return result
-- 
2.43.0


From 28b95d8eed33e1d0f4ad75034c6c621d8a099379 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:06 +0000
Subject: [PATCH 22/95] fix: PlainBinaryReader.u32()/s32() in native mode,
 where a long may have 8 bytes

---
 objutils/readers.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/readers.py b/objutils/readers.py
index a69bef3..30a8022 100644
--- a/objutils/readers.py
+++ b/objutils/readers.py
@@ -75,7 +75,7 @@ class PlainBinaryReader:
         return self.value("H", 2)
 
     def u32(self):
-        return self.value("L", 4)
+        return self.value("I", 4)
 
     def u64(self):
         return self.value("Q", 8)
@@ -87,7 +87,7 @@ class PlainBinaryReader:
         return self.value("h", 2)
 
     def s32(self):
-        return self.value("l", 4)
+        return self.value("i", 4)
 
     def s64(self):
         return self.value("q", 8)
-- 
2.43.0


From de3abea54014291909d462d02bcef432046381c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:22 +0000
Subject: [PATCH 23/95] fix: DWARF block encodings can be built from bytes

---
 objutils/dwarf/encoding.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/dwarf/encoding.py b/objutils/dwarf/encoding.py
index 14b2be4..995f018 100644
--- a/objutils/dwarf/encoding.py
+++ b/objutils/dwarf/encoding.py
@@ -158,7 +158,7 @@ class Block(Construct):
         msk = f"{self.BYTEORDER}{self.MASK}"
         count = struct.pack(msk, len(value))
         stream.write(count)
-        stream.write(bytes(value, encoding="ascii"))
+        stream.write(bytes(value, encoding="ascii") if isinstance(value, str) else bytes(value))
 
 
 @singleton
@@ -171,7 +171,7 @@ class BlockUleb(Block):
     def _build(self, value, stream, context, path):
         count = ULEB.build(len(value))
         stream.write(count)
-        stream.write(bytes(value, encoding="ascii"))
+        stream.write(bytes(value, encoding="ascii") if isinstance(value, str) else bytes(value))
 
 
 @singleton
-- 
2.43.0


From 23c50ba944fc93103663c5c5a298af35f018f99b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:34 +0000
Subject: [PATCH 24/95] fix: calling Registry() again must not forget
 registered codecs; codec names are case insensitive

---
 objutils/registry.py       | 8 ++++++--
 objutils/utils/__init__.py | 4 ++--
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/objutils/registry.py b/objutils/registry.py
index 6e9d1bb..b435c9a 100644
--- a/objutils/registry.py
+++ b/objutils/registry.py
@@ -41,8 +41,11 @@ Codec = namedtuple("Codec", "Reader Writer description")
 
 
 class Registry(SingletonBase):
-    def __init__(self):
-        self._codecs = OrderedDict()
+    def __new__(cls, *args, **kws):
+        instance = super().__new__(cls, *args, **kws)
+        # Singleton: `__init__` is run each time the class is called, so it must not reset the state.
+        instance.__dict__.setdefault("_codecs", OrderedDict())
+        return instance
 
     def __iter__(self):
         return iter(self._codecs.items())
@@ -60,6 +63,7 @@ class Registry(SingletonBase):
         return codec
 
     def register(self, name, readerClass, writerClass, description=""):
+        name = name.lower()  # Lookups are case insensitive.
         if name in self.codecs:
             raise CodecAlreadyExistError(name)
         self._codecs[name] = Codec(readerClass, writerClass, description)
diff --git a/objutils/utils/__init__.py b/objutils/utils/__init__.py
index b086681..e078952 100644
--- a/objutils/utils/__init__.py
+++ b/objutils/utils/__init__.py
@@ -166,10 +166,10 @@ class SingletonBase:
 
     def __new__(cls, *args, **kws):
         # Double-Checked Locking
-        if not hasattr(cls, "_instance"):
+        if "_instance" not in cls.__dict__:  # Don't share the instance of a base class.
             try:
                 cls._lock.acquire()
-                if not hasattr(cls, "_instance"):
+                if "_instance" not in cls.__dict__:
                     cls._instance = super().__new__(cls)
             finally:
                 cls._lock.release()
-- 
2.43.0


From 371ab2f948e06e826f11fcabfb974d8e98d35640 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:36 +0000
Subject: [PATCH 25/95] fix: concurrent registrations of one codec name could
 both succeed

---
 objutils/registry.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/registry.py b/objutils/registry.py
index b435c9a..3b92918 100644
--- a/objutils/registry.py
+++ b/objutils/registry.py
@@ -64,9 +64,9 @@ class Registry(SingletonBase):
 
     def register(self, name, readerClass, writerClass, description=""):
         name = name.lower()  # Lookups are case insensitive.
-        if name in self.codecs:
+        codec = Codec(readerClass, writerClass, description)
+        if self._codecs.setdefault(name, codec) is not codec:  # Atomic check and insert.
             raise CodecAlreadyExistError(name)
-        self._codecs[name] = Codec(readerClass, writerClass, description)
         readerClass.codecName = name
         writerClass.codecName = name
 
-- 
2.43.0


From b1276391d1e0864aebe486ab23290822b7bfcda6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:21 +0000
Subject: [PATCH 26/95] fix: DWARF stack machines must not share the readers of
 the last one created

The readers were stored on a class, so processing a second file with a
different byte-order or address size changed how the first one decoded.
---
 objutils/dwarf/sm.py | 39 ++++++---------------------------------
 1 file changed, 6 insertions(+), 33 deletions(-)

diff --git a/objutils/dwarf/sm.py b/objutils/dwarf/sm.py
index 53208be..e292a21 100644
--- a/objutils/dwarf/sm.py
+++ b/objutils/dwarf/sm.py
@@ -78,46 +78,19 @@ class OperationBase:
     PARAMETERS = []
     ARRAY_SIZE = None
 
-    @classmethod
-    def set_readers(cls, readers):
-        cls.readers = readers
-        cls.native_address = readers.native_address
-        cls.u8 = readers.u8
-        cls.s8 = readers.s8
-        cls.u16 = readers.u16
-        cls.s16 = readers.s16
-        cls.u32 = readers.u32
-        cls.s32 = readers.s32
-        cls.u64 = readers.u64
-        cls.s64 = readers.s64
-        cls.uleb = readers.uleb
-        cls.sleb = readers.sleb
-        cls.block1 = readers.block1
-        cls.READERS = {
-            "native_address": cls.native_address,
-            "u8": cls.u8,
-            "s8": cls.s8,
-            "u16": cls.u16,
-            "s16": cls.s16,
-            "u32": cls.u32,
-            "s32": cls.s32,
-            "u64": cls.u64,
-            "s64": cls.s64,
-            "uleb": cls.uleb,
-            "sleb": cls.sleb,
-            "block1": cls.block1,
-        }
+    def __init__(self, readers):
+        self.readers = readers
 
     def parse(self, image):
         self.result = []
         self.data_block = None
         for type_name in self.PARAMETERS:
-            reader = OperationBase.READERS[type_name]
+            reader = getattr(self.readers, type_name)
             data = reader.parse_stream(image)
             self.result.append(data)
         if self.result and self.ARRAY_SIZE is not None:
             length = self.result[self.ARRAY_SIZE]
-            self.data_block = Array(length, self.u8).parse_stream(image)
+            self.data_block = Array(length, self.readers.u8).parse_stream(image)
             print("*** DATA_BLOCK:", self.data_block)
             raise RuntimeError()
 
@@ -1329,7 +1302,7 @@ class StackMachine:
 
     def __init__(self, readers):
         self.stack = Stack()
-        OperationBase.set_readers(readers)
+        self.readers = readers
 
     def evaluate(self, expr: bytes):
         OPs = constants.Operation
@@ -1350,7 +1323,7 @@ class StackMachine:
                 opcode_name = opcode.name  # noqa: F841
             op_klass = OP_MAP.get(opcode_num)
             if op_klass:
-                operation = op_klass()
+                operation = op_klass(self.readers)
                 operation.parse(image)
                 result.append(str(operation))
                 operation.stack_op(self.stack)
-- 
2.43.0


From 8da199d716f3bd74df563009237206c6d4879ae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 27/95] fix: constant blocks in DWARF expressions are operands,
 not operations

---
 objutils/dwarf/sm.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/objutils/dwarf/sm.py b/objutils/dwarf/sm.py
index e292a21..7dc3d30 100644
--- a/objutils/dwarf/sm.py
+++ b/objutils/dwarf/sm.py
@@ -105,7 +105,9 @@ class OperationBase:
         if self.result:
             params = []
             for param in self.result:
-                if param > 0:
+                if isinstance(param, (bytes, bytearray)):
+                    params.append(f"0x{param.hex()}")
+                elif param > 0:
                     params.append(f"0x{param:08x}")
                 else:
                     params.append(f"{param}")
@@ -947,7 +949,7 @@ class Bit_Piece(OperationBase):
 
 class Implicit_Value(OperationBase):
     DISPLAY_NAME = "implicit_value"
-    PARAMETERS = ["uleb"]
+    PARAMETERS = ["block_uleb"]
 
 
 class Stack_Value(OperationBase):
@@ -976,7 +978,7 @@ class Entry_Value(OperationBase):
 
 class Const_Type(OperationBase):
     DISPLAY_NAME = "const_type"
-    PARAMETERS = ["uleb", "u8"]
+    PARAMETERS = ["uleb", "block1"]
 
 
 class Regval_Type(OperationBase):
@@ -1035,7 +1037,7 @@ class Gnu_Entry_Value(OperationBase):
 
 class Gnu_Const_Type(OperationBase):
     DISPLAY_NAME = "GNU_const_type"
-    PARAMETERS = ["uleb", "u8", "block1"]
+    PARAMETERS = ["uleb", "block1"]
 
 
 class Gnu_Regval_Type(OperationBase):
-- 
2.43.0


From 566a5a0892e7204dad9a4dfde9e74806f3d47b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:50 +0000
Subject: [PATCH 28/95] fix: ARM attributes: process all sub-subsections,
 tolerate values without description

---
 objutils/elf/arm/attributes.py | 21 ++++++++++++---------
 1 file changed, 12 insertions(+), 9 deletions(-)

diff --git a/objutils/elf/arm/attributes.py b/objutils/elf/arm/attributes.py
index 3bc99c1..2abbe07 100644
--- a/objutils/elf/arm/attributes.py
+++ b/objutils/elf/arm/attributes.py
@@ -459,15 +459,18 @@ def parse(buffer, byteorder="<"):
         if section.vendor not in result:
             result[section.vendor] = []
         i += section.len
-        res = SubSectionHeader.parse(section.data)
-        j = 0
-        while j < len(res.data):
-            attr = RawAttribute.parse(res.data[j:])
-            r = Attribute(attr.tag, attr.name, attr.value)
-            if attr._conv != Ident:
-                r.description = attr._conv[attr.value]
-            result[section.vendor].append(r)
-            j += attr.pos
+        offset = 0
+        while offset < len(section.data):
+            res = SubSectionHeader.parse(section.data[offset:])
+            offset += res.len
+            j = 0
+            while j < len(res.data):
+                attr = RawAttribute.parse(res.data[j:])
+                r = Attribute(attr.tag, attr.name, attr.value)
+                if attr._conv != Ident:
+                    r.description = attr._conv.get(attr.value, attr.value)
+                result[section.vendor].append(r)
+                j += attr.pos
         if i >= length:
             break
     return result
-- 
2.43.0


From 4e0c615fac360ed56c5a8da465c6f188cc65c6ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:52 +0000
Subject: [PATCH 29/95] fix: ARM attributes with unknown tags must not make the
 whole section unreadable

---
 objutils/elf/arm/attributes.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/objutils/elf/arm/attributes.py b/objutils/elf/arm/attributes.py
index 2abbe07..3750b84 100644
--- a/objutils/elf/arm/attributes.py
+++ b/objutils/elf/arm/attributes.py
@@ -391,6 +391,14 @@ WRS         Wind River Systems.
 """
 
 
+def attribute_description(tag):
+    """Unknown tags: even ones have a numeric, odd ones a string value."""
+    try:
+        return ATTRIBUTES[tag]
+    except KeyError:
+        return AttributeDescription(f"Tag_unknown_{tag}", tag, Reader.CSTRING if tag & 1 else Reader.ULEB, Ident)
+
+
 class Attribute:
     def __init__(self, tag, tag_name, value, description=None):
         self.tag = tag
@@ -437,9 +445,9 @@ def parse(buffer, byteorder="<"):
 
     RawAttribute = Struct(
         "tag" / ULEB,
-        "parameterType" / Computed(lambda ctx: ATTRIBUTES[ctx.tag].parameterType),
-        "name" / Computed(lambda ctx: ATTRIBUTES[ctx.tag].tag),
-        "_conv" / Computed(lambda ctx: ATTRIBUTES[ctx.tag].conv),
+        "parameterType" / Computed(lambda ctx: attribute_description(ctx.tag).parameterType),
+        "name" / Computed(lambda ctx: attribute_description(ctx.tag).tag),
+        "_conv" / Computed(lambda ctx: attribute_description(ctx.tag).conv),
         "value"
         / Switch(
             this.parameterType,
-- 
2.43.0


From ef55cada165e53f00c9e1fe30d40b36a8b0578e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:11 +0000
Subject: [PATCH 30/95] fix: an interrupted import must not leave an incomplete
 but valid looking program database

The hash of the ELF file was committed together with the first symbol
section. When the import did not get beyond that point, the next
ElfParser accepted the database and the remaining symbols were missing.
---
 objutils/elf/__init__.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 7e5ceb9..aa77f67 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -683,12 +683,7 @@ class ElfParser:
                 access=section_header.sh_flags if section_header else 0,
             )
             symbols.append(db_sym)
-        try:
-            self.session.bulk_save_objects(symbols)
-            self.session.commit()
-        except Exception as e:
-            self.session.rollback()
-            print(f"{e}")
+        self.session.bulk_save_objects(symbols)  # Committed by load_data(), all or nothing.
 
     def _parse_comment(self, data):
         Line = Struct("line" / CString("ascii"), "pos" / Tell)
-- 
2.43.0


From 557c7678831cbf021aeac795c3d95f0ac99de8c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:11 +0000
Subject: [PATCH 31/95] fix: SymbolAPI.fetch() only considered the first of the
 requested symbol types

---
 objutils/elf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index aa77f67..8b62cf9 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -303,7 +303,7 @@ class SymbolAPI(DBAPI):
                     flt.append(defs.SymbolType.STT_COMMON)
                 elif item == "tls":
                     flt.append(defs.SymbolType.STT_TLS)
-                query = query.filter(model.Elf_Symbol.st_type.in_(flt))
+            query = query.filter(model.Elf_Symbol.st_type.in_(flt))
         if name_pattern:
             query = query.filter(func.regexp(model.Elf_Symbol.symbol_name, name_pattern))
         query = query.order_by(model.Elf_Symbol.section_name)
-- 
2.43.0


From 099fbc12980f0dc340a7f5903b337772fdafa400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:49 +0000
Subject: [PATCH 32/95] fix: ELF symbol binding and section name properties
 raised exceptions

---
 objutils/elf/model.py | 11 +++++------
 1 file changed, 5 insertions(+), 6 deletions(-)

diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index f1817e2..c94d4c0 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -190,11 +190,11 @@ class Elf_Section(Base, RidMixIn):
 
     @hybrid_property
     def is_debug(self):
-        return self.section_name.starts_with(".debug")
+        return self.section_name.startswith(".debug")
 
     @hybrid_property
     def is_dwo(self):
-        return self.section_name.starts_with(".dwo")
+        return self.section_name.startswith(".dwo")
 
     @hybrid_property
     def has_content(self):
@@ -216,7 +216,6 @@ class Elf_Section(Base, RidMixIn):
 
     @hybrid_method
     def test_flags(self, mask):
-        print("\ttest_flags", self.get_flags(), mask)
         return self.get_flags() & mask == mask
 
     @test_flags.expression
@@ -320,7 +319,7 @@ class Elf_Symbol(Base, RidMixIn):
 
     @hybrid_property
     def weak(self):
-        return self.symbol_bind() == defs.SymbolBinding.STB_WEAK
+        return self.st_bind == defs.SymbolBinding.STB_WEAK
 
     @hybrid_property
     def absolute(self):
@@ -332,11 +331,11 @@ class Elf_Symbol(Base, RidMixIn):
 
     @hybrid_property
     def local(self):
-        return self.symbol_bind() == defs.SymbolBinding.STB_LOCAL
+        return self.st_bind == defs.SymbolBinding.STB_LOCAL
 
     @hybrid_property
     def global_(self):
-        return self.symbol_bind() == defs.SymbolBinding.STB_GLOBAL
+        return self.st_bind == defs.SymbolBinding.STB_GLOBAL
 
     @hybrid_method
     def get_access(self):
-- 
2.43.0


From aa92240a4402dab948b7930f64858876156af842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:51 +0000
Subject: [PATCH 33/95] fix: descriptor of ELF notes is aligned, names may be
 empty

---
 objutils/elf/__init__.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 8b62cf9..51faa14 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -708,13 +708,14 @@ class ElfParser:
             "descsz" / self.Word,
             "type" / self.Word,
             "name" / Bytes(this.namesz),
+            Padding(-this.namesz % 4),  # `desc` is 4-byte aligned.
             "desc" / Bytes(this.descsz),
         )
         if not data:
             return None
         result = Note.parse(data)
         result.desc = binascii.b2a_hex(result.desc).decode()
-        result.name = self.asciiCString.parse(result.name)
+        result.name = result.name.split(b"\x00", 1)[0].decode("ascii")
         return result
 
     def debug_sections(self):
-- 
2.43.0


From 8a0c5682503d8896f2f7570085d66af56ebc1a05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:03 +0000
Subject: [PATCH 34/95] fix: each codec instance added another log handler,
 messages were emitted repeatedly

---
 objutils/logger.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/objutils/logger.py b/objutils/logger.py
index e443e81..e5b9f74 100644
--- a/objutils/logger.py
+++ b/objutils/logger.py
@@ -35,11 +35,12 @@ class Logger:
     def __init__(self, name, level=logging.WARN):
         self.logger = logging.getLogger(f"{self.LOGGER_BASE_NAME}.{name}")
         self.logger.setLevel(level)
-        handler = logging.StreamHandler()
-        handler.setLevel(level)
-        formatter = logging.Formatter(self.FORMAT)
-        handler.setFormatter(formatter)
-        self.logger.addHandler(handler)
+        if not self.logger.handlers:  # Loggers are shared by name, don't emit messages more than once.
+            handler = logging.StreamHandler()
+            handler.setLevel(level)
+            formatter = logging.Formatter(self.FORMAT)
+            handler.setFormatter(formatter)
+            self.logger.addHandler(handler)
         self.lastMessage = None
         self.lastSeverity = None
 
-- 
2.43.0


From a4b92e216578803fedd85af3f78099989051436a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:03:41 +0000
Subject: [PATCH 35/95] fix: reused readers and writers must not continue the
 previous file

---
 objutils/hexfile.py | 3 +++
 objutils/ihex.py    | 7 ++++---
 objutils/srec.py    | 7 +++++++
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 7c453e2..e4ebf5f 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -484,6 +484,9 @@ class ASCIIHexWriter(Writer):
         self.address_designator = address_designator
         super().__init__()
 
+    def pre_processing(self, image):
+        self.previous_address = None  # Don't continue the previous file.
+
     def compose_row(self, address, length, row):
         prepend_address = True if address != self.previous_address else False
         self.previous_address = address + length
diff --git a/objutils/ihex.py b/objutils/ihex.py
index 4c3fb37..e16f36c 100644
--- a/objutils/ihex.py
+++ b/objutils/ihex.py
@@ -49,6 +49,10 @@ class Reader(hexfile.Reader):
         super().__init__()
         self.segmentAddress = 0
 
+    def read(self, fp):
+        self._address_calculator = partial(operator.add, 0)  # Don't start with the extended address of the previous file.
+        return super().read(fp)
+
     def check_line(self, line, format_type):
         if line.length != len(line.chunk):
             raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
@@ -103,9 +107,6 @@ class Reader(hexfile.Reader):
         else:
             self.warn(f"Invalid record type [{line.type:d}] at line {line.line_number:d}")
 
-    def _address_calculator(self, x):
-        return x
-
 
 def divmod(a, b):
     return a / b, a % b
diff --git a/objutils/srec.py b/objutils/srec.py
index 7953d77..67432d0 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -151,6 +151,13 @@ class Writer(hexfile.Writer):
 
     checksum = partial(lrc, width=8, comp=COMPLEMENT_ONES)
 
+    def dumps(self, image, row_length=16, **kws):
+        record_type = self.record_type
+        try:
+            return super().dumps(image, row_length, **kws)
+        finally:
+            self.record_type = record_type  # The type chosen for this image must not be used for the next one.
+
     def pre_processing(self, image):
         if hasattr(image, "sections"):
             last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
-- 
2.43.0


From aa2987ba4a848e5a6d77e155cb832d8973506ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:00 +0000
Subject: [PATCH 36/95] fix: address lines of the ASCII hex space writer lacked
 the terminator its reader expects

---
 objutils/ash.py     | 1 +
 objutils/hexfile.py | 3 ++-
 2 files changed, 3 insertions(+), 1 deletion(-)

diff --git a/objutils/ash.py b/objutils/ash.py
index e6d6996..663a3e3 100644
--- a/objutils/ash.py
+++ b/objutils/ash.py
@@ -65,6 +65,7 @@ class Reader(hexfile.ASCIIHexReader):
 class Writer(hexfile.ASCIIHexWriter):
     MAX_ADDRESS_BITS = 16
     ADDRESS_DESIGNATOR = "$A"
+    ADDRESS_TERMINATOR = ","
 
     def __init__(self, address_designator="$A"):
         super().__init__(address_designator)
diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index e4ebf5f..edf65fc 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -477,6 +477,7 @@ class ASCIIHexReader(Reader):
 
 class ASCIIHexWriter(Writer):
     MAX_ADDRESS_BITS = 16
+    ADDRESS_TERMINATOR = ""
     previous_address = None
 
     def __init__(self, address_designator):
@@ -492,7 +493,7 @@ class ASCIIHexWriter(Writer):
         self.previous_address = address + length
         if prepend_address:
             line = "{}\n{}".format(
-                f"{self.address_designator}{address:04X}",
+                f"{self.address_designator}{address:04X}{self.ADDRESS_TERMINATOR}",
                 f"{self.separator}".join([f"{x:02X}" for x in row]),
             )
         else:
-- 
2.43.0


From db623833d4bb5d91ddafc3223cde46c381a86cf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:34 +0000
Subject: [PATCH 37/95] fix: blank lines of TI-TXT and ASCII hex files became
 empty sections

---
 objutils/hexfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index edf65fc..91f3bd7 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -447,6 +447,8 @@ class ASCIIHexReader(Reader):
         return False
 
     def parse_line(self, line, match):
+        if not line.strip():  # A blank line is not an empty section.
+            return True
         section = Section(
             self.address,
             bytearray([int(ch, 16) for ch in filter(lambda x: x, self.SPLITTER.split(line))]),
-- 
2.43.0


From a716e161300ad53508fc8cbcb12cfcd826002d6f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:25 +0000
Subject: [PATCH 38/95] fix: hexdump printed the DEL control character as text

---
 objutils/hexdump.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/hexdump.py b/objutils/hexdump.py
index 0107393..feacb77 100644
--- a/objutils/hexdump.py
+++ b/objutils/hexdump.py
@@ -28,7 +28,7 @@ import sys
 
 
 def isprintable(ch) -> bool:
-    return 0x1F < ch < 0x80
+    return 0x1F < ch < 0x7F
 
 
 def unpack(*args):
-- 
2.43.0


From 446a8c34db90070420b4a39f6562bfc61cb585a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 39/95] fix: the end of a sibling chain did not end the
 children of a DIE

The stack of open DIEs was never popped, later siblings became descendants of earlier ones.
---
 objutils/dwarf/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 4f51d3d..ff97cce 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -744,6 +744,8 @@ class DwarfProcessor:
                 if not abbr:
                     print(f"<{start:2x}>: Abbrev Number: 0 ---")
                     level -= 1
+                    if len(die_stack) > 1:
+                        die_stack.pop()
                 else:
                     die = DebugInformationEntry(abbr.tag)
                     db_die = model.DebugInformationEntry(tag=abbr.tag)
-- 
2.43.0


From fc4af9e0da79b0b223aa0693cf92ec151bb95d27 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 40/95] fix: the last DIE of a unit was missing from the DIE
 map or lost attributes

---
 objutils/dwarf/__init__.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index ff97cce..491ef4c 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -753,7 +753,7 @@ class DwarfProcessor:
                     if attr.attr != 0:
                         die_stack[-1].children.append(die)
                     print(f"{'   ' * (level + 1)}<{level}><{start:02x}>: Abbrev Number: {attr.attr} ({abbr.tag})")
-                    die_start = start
+                    die_map[start] = die
                     if abbr.children:
                         die_stack.append(die)
                         level += 1
@@ -783,10 +783,6 @@ class DwarfProcessor:
                                 db_die.attributes.append(
                                     model.DIEAttribute(name=enc.name, raw_value=value, display_value=display_value)
                                 )
-                                offset += attr.stop - attr.start
-                                pos = image.tell()
-                                if pos >= dbgInfo.start + cu_length + 4:
-                                    break
                                 continue
                             else:
                                 print("*EF", enc, form, start, attr, abbr)
@@ -849,7 +845,6 @@ class DwarfProcessor:
                         break
                 # print(db_die, db_die.attributes)
                 # self.db_session.bulk_save_objects([db_die])
-                die_map[die_start] = die
             result.append(root_element)
         self.db_session.commit()
         return DebugInformation(die_map, [d.children[0] for d in result])
-- 
2.43.0


From ef5c61b38e6ace6a26e67c102c5a59085b6be238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 41/95] fix: a DIE of one byte at the end of .debug_info was
 dropped

---
 objutils/dwarf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 491ef4c..d6389be 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -737,7 +737,7 @@ class DwarfProcessor:
                 start = image.tell()
                 if start >= dbgInfo.start + cu_length + 4:
                     break
-                if start >= section_length - 1:
+                if start >= section_length:
                     break
                 attr = Attribute.parse_stream(image)
                 abbr = self.abbrevations.get(debug_abbrev_offset, attr.attr)
-- 
2.43.0


From efe96b6423d4fe8ec8f6094f34f39d1828a6fc02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 42/95] fix: implicit constants are signed and may belong to
 unknown attributes

---
 objutils/dwarf/__init__.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index d6389be..8905ada 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -188,7 +188,7 @@ class Abbrevations:
 
     SpecialValueStruct = Struct(
         "start" / Tell,
-        "value" / ULEB,
+        "value" / SLEB,
         "stop" / Tell,
     )
 
@@ -252,9 +252,13 @@ class Abbrevations:
                     offset += attr.stop - attr.start
                     special_value = self.SpecialValueStruct.parse(self.image[offset:])
                     offset += special_value.stop - special_value.start
+                    try:
+                        encoding = constants.AttributeEncoding(attr.attrValue)
+                    except TypeError:
+                        encoding = constants.FakeEncoding(attr.attrValue)
                     self.abbrevations[key].attrs.append(
                         Attribute(
-                            constants.AttributeEncoding(attr.attrValue),
+                            encoding,
                             constants.AttributeForm(attr.formValue),
                             special_value.value,
                         )
-- 
2.43.0


From 0b143f5be28eff0fe4dadd6e4afa9c2100d079cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 43/95] fix: headers of DWARF 5 type, skeleton and split units
 were read as part of the first DIE

---
 objutils/dwarf/__init__.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 8905ada..b6614cb 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -679,6 +679,21 @@ class DwarfProcessor:
             "unit_type" / self.readers.u8,
             "address_size" / self.readers.u8,
             "debug_abbrev_offset" / self.readers.u32,
+            "dwo_id"
+            / If(
+                lambda ctx: ctx.unit_type in (constants.UnitHeader.DW_UT_skeleton, constants.UnitHeader.DW_UT_split_compile),
+                self.readers.u64,
+            ),
+            "type_signature"
+            / If(
+                lambda ctx: ctx.unit_type in (constants.UnitHeader.DW_UT_type, constants.UnitHeader.DW_UT_split_type),
+                self.readers.u64,
+            ),
+            "type_offset"
+            / If(
+                lambda ctx: ctx.unit_type in (constants.UnitHeader.DW_UT_type, constants.UnitHeader.DW_UT_split_type),
+                self.readers.u32,
+            ),
             "stop" / Tell,
         )
 
-- 
2.43.0


From 8c782004fc2629ff8a23b53c5718f4d583d07a99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:53:39 +0000
Subject: [PATCH 44/95] fix: encoded DWARF attributes in block form
 (discr_list) made the parser fail

---
 objutils/dwarf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index b6614cb..4846fee 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -833,7 +833,7 @@ class DwarfProcessor:
                                 except Exception:
                                     print("VALUE", value, enc, form)
                                     raise
-                        elif enc in ENCODED_ATTRIBUTES:
+                        elif enc in ENCODED_ATTRIBUTES and isinstance(value, int):
                             res = encoding_repr(enc, value)
                             display_value = f"{res} (0x{value:08x})"
                         else:
-- 
2.43.0


From 3e9a2ae62cc9f9d3d93cfdb95dce6a6f6bf88367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:11 +0000
Subject: [PATCH 45/95] fix: 64-bit ELF values of 2^63 and above could not be
 stored

Addresses in the upper half of the address space (e.g. of kernels) made the import fail.
---
 objutils/elf/__init__.py |  8 ++++----
 objutils/elf/model.py    | 22 ++++++++++++++++++++--
 2 files changed, 24 insertions(+), 6 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 51faa14..7e1afef 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -204,7 +204,7 @@ class SectionAPI(DBAPI):
         if name_pattern:
             query = query.filter(func.regexp(model.Elf_Section.section_name, name_pattern))
         if order_by_address:
-            query = query.order_by(model.Elf_Section.sh_addr)
+            query = query.order_by(*model.ascending(model.Elf_Section.sh_addr))
         else:
             query = query.order_by(model.Elf_Section.section_name)
         result = query.all()
@@ -308,7 +308,7 @@ class SymbolAPI(DBAPI):
             query = query.filter(func.regexp(model.Elf_Symbol.symbol_name, name_pattern))
         query = query.order_by(model.Elf_Symbol.section_name)
         if order_by_value:
-            query = query.order_by(model.Elf_Symbol.st_value)
+            query = query.order_by(*model.ascending(model.Elf_Symbol.st_value))
         else:
             query = query.order_by(model.Elf_Symbol.symbol_name)
         for key, value in groupby(query.all(), lambda s: s.section_name):
@@ -329,7 +329,7 @@ class SymbolAPI(DBAPI):
         syms = syms.filter(model.Elf_Symbol.symbol_name != "")
         syms = syms.filter(func.regexp(model.Elf_Symbol.symbol_name, "_.*"))
         syms = syms.filter(model.Elf_Symbol.st_type == defs.SymbolType.STT_NOTYPE)
-        return syms.order_by(model.Elf_Symbol.st_value).all()
+        return syms.order_by(*model.ascending(model.Elf_Symbol.st_value)).all()
 
 
 def calculate_crypto_hash(data: bytes) -> str:
@@ -989,7 +989,7 @@ class ElfParser:
         if exclude_pattern:
             query = query.filter(not_(func.regexp(model.Elf_Section.section_name, exclude_pattern)))
 
-        query = query.order_by(model.Elf_Section.sh_addr)
+        query = query.order_by(*model.ascending(model.Elf_Section.sh_addr))
         result = []
         if callback:
             callback("start", None)
diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index c94d4c0..ddf732f 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -87,9 +87,27 @@ table = Table(
 """
 
 
+class UnsignedInteger(types.TypeDecorator):
+    """SQLite integers are signed 64-bit: the upper half of unsigned 64-bit values is stored as two's complement."""
+
+    impl = types.INTEGER
+    cache_ok = True
+
+    def process_bind_param(self, value, dialect):
+        return value - (1 << 64) if value is not None and value >= (1 << 63) else value
+
+    def process_result_value(self, value, dialect):
+        return value + (1 << 64) if value is not None and value < 0 else value
+
+
+def ascending(column):
+    """Criteria to order by an unsigned column."""
+    return (column < 0, column)
+
+
 def StdInteger(default=0, primary_key=False, unique=False, nullable=False, index=False):
     return Column(
-        types.INTEGER,
+        UnsignedInteger,
         default=default,
         nullable=nullable,  # PassiveDefault(str(default))
         primary_key=primary_key,
@@ -112,7 +130,7 @@ def StdNumeric(default=0, primary_key=False, unique=False, nullable=False, index
 
 def StdBigInt(default=0, primary_key=False, unique=False, nullable=False, index=False):
     return Column(
-        types.INTEGER,
+        UnsignedInteger,
         default=default,
         nullable=nullable,
         primary_key=primary_key,
-- 
2.43.0


From d4264e19de3236882a594c45a090a61965b8b861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:14 +0000
Subject: [PATCH 46/95] fix: DWARF attribute values of 2^63 and above could not
 be stored

---
 objutils/elf/model.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index ddf732f..2f0584f 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -100,6 +100,16 @@ class UnsignedInteger(types.TypeDecorator):
         return value + (1 << 64) if value is not None and value < 0 else value
 
 
+class Text(types.TypeDecorator):
+    """Text, numbers of any size are stored as text as well."""
+
+    impl = types.VARCHAR
+    cache_ok = True
+
+    def process_bind_param(self, value, dialect):
+        return str(value) if isinstance(value, int) else value
+
+
 def ascending(column):
     """Criteria to order by an unsigned column."""
     return (column < 0, column)
@@ -405,8 +415,8 @@ class Elf_Note(Base, RidMixIn):
 
 class DIEAttribute(Base, RidMixIn):
     name = Column(types.VARCHAR)
-    raw_value = Column(types.VARCHAR)
-    display_value = Column(types.VARCHAR)
+    raw_value = Column(Text)
+    display_value = Column(Text)
     entry_id = Column(types.Integer, ForeignKey("debuginformationentry.rid"))
     entry = relationship("DebugInformationEntry", back_populates="attributes")
 
-- 
2.43.0


From 92ded8759aae5a7a9e0acc11f72b288eaf2a724c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:23 +0000
Subject: [PATCH 47/95] fix: a re-opened program database could not be written
 to

The connection used to check the hash stayed open and kept its lock.
---
 objutils/elf/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 7e1afef..4b85e34 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -390,8 +390,9 @@ class ElfParser:
             meta = session.query(model.Meta).first()
             if meta:
                 print(f"Calculated hash: {hash_value} DB-hash: {meta.hash_value} EQ: {hash_value == meta.hash_value}")
-            if (meta is None) or (hash_value != meta.hash_value):
-                db.close()
+            outdated = (meta is None) or (hash_value != meta.hash_value)
+            db.close()
+            if outdated:
                 new_db = True
                 try:
                     os.unlink(self.db_name)
-- 
2.43.0


From 8b1e1d4a7747bda620cb75d9188507ab3cc72a6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:00:09 +0000
Subject: [PATCH 48/95] fix: link-relax flag of AVR ELF files was never
 reported

---
 objutils/elf/defs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/defs.py b/objutils/elf/defs.py
index f26eee4..76d1434 100644
--- a/objutils/elf/defs.py
+++ b/objutils/elf/defs.py
@@ -574,7 +574,7 @@ class AvrMachineData(MachineData):
             result.append(AVRMachineTypeNames[flags])
         else:
             result.append("avr:<unknown>")
-        if flags & EF_AVR_LINKRELAX_PREPARED:
+        if self.flags & EF_AVR_LINKRELAX_PREPARED:
             result.append("link-relax")
         return result
 
-- 
2.43.0


From daf65b8bc61629b477f98a9bf541e9381293d225 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:29 +0000
Subject: [PATCH 49/95] fix: the data base stayed locked after a failed import
 of an ELF file

---
 objutils/elf/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 4b85e34..ddb6b77 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -405,7 +405,11 @@ class ElfParser:
         if new_db:
             meta = model.Meta(hash_value=hash_value)
             self.session.add(meta)
-            self.load_data()
+            try:
+                self.load_data()
+            except BaseException:
+                self.db.close()  # Else the data base stays locked.
+                raise
         else:
             self._header = self.session.query(model.Elf_Header).first()
             self._program_headers = self.session.query(model.Elf_ProgramHeaders).all()
-- 
2.43.0


From fc5ad524f262882bf088e2986b3b6acf230f99f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:21:54 +0000
Subject: [PATCH 50/95] fix: COSMAC reader continued the previous file

---
 objutils/cosmac.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/objutils/cosmac.py b/objutils/cosmac.py
index e20ae6d..33b981a 100644
--- a/objutils/cosmac.py
+++ b/objutils/cosmac.py
@@ -43,6 +43,10 @@ class Reader(hexfile.Reader):
     previous_address = 0
     previous_length = 0
 
+    def read(self, fp):
+        self.previous_address = self.previous_length = 0  # Don't continue the previous file.
+        return super().read(fp)
+
     def check_line(self, line, format_type):
         return True
 
-- 
2.43.0


From aa5d86161d9da08934e05cfe934e0be6e3cb1ac1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:22 +0000
Subject: [PATCH 51/95] fix: S5 record with a count of 65536 was malformed

---
 objutils/srec.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/srec.py b/objutils/srec.py
index 67432d0..ac3c4c7 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -184,6 +184,8 @@ class Writer(hexfile.Writer):
             data = []
         if record_type == 0:  # Header records have a 16-bit address field, regardless of the data records.
             offset, address_mask = 3, "%04X"
+        elif record_type == 5 and address > 0xFFFF and self.record_type == 1:  # A 64K image in rows of one byte.
+            offset, address_mask = 4, "%06X"
         else:
             offset, address_mask = self.offset, self.address_mask
         length += offset
-- 
2.43.0


From 0a65f6cc224bb3ed880ccfbcb3e2a40836822636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:55 +0000
Subject: [PATCH 52/95] fix: name patterns of ELF sections and symbols were
 applied the wrong way round

---
 objutils/elf/__init__.py | 10 +++++-----
 objutils/elf/model.py    |  2 +-
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index ddb6b77..3d999b1 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -202,7 +202,7 @@ class SectionAPI(DBAPI):
 
         query = self.query(model.Elf_Section)
         if name_pattern:
-            query = query.filter(func.regexp(model.Elf_Section.section_name, name_pattern))
+            query = query.filter(func.regexer(model.Elf_Section.section_name, name_pattern))
         if order_by_address:
             query = query.order_by(*model.ascending(model.Elf_Section.sh_addr))
         else:
@@ -305,7 +305,7 @@ class SymbolAPI(DBAPI):
                     flt.append(defs.SymbolType.STT_TLS)
             query = query.filter(model.Elf_Symbol.st_type.in_(flt))
         if name_pattern:
-            query = query.filter(func.regexp(model.Elf_Symbol.symbol_name, name_pattern))
+            query = query.filter(func.regexer(model.Elf_Symbol.symbol_name, name_pattern))
         query = query.order_by(model.Elf_Symbol.section_name)
         if order_by_value:
             query = query.order_by(*model.ascending(model.Elf_Symbol.st_value))
@@ -327,7 +327,7 @@ class SymbolAPI(DBAPI):
         """
         syms = self.query(model.Elf_Symbol).filter(model.Elf_Symbol.st_shndx == defs.SectionName.SHN_ABS)
         syms = syms.filter(model.Elf_Symbol.symbol_name != "")
-        syms = syms.filter(func.regexp(model.Elf_Symbol.symbol_name, "_.*"))
+        syms = syms.filter(func.regexer(model.Elf_Symbol.symbol_name, "_.*"))
         syms = syms.filter(model.Elf_Symbol.st_type == defs.SymbolType.STT_NOTYPE)
         return syms.order_by(*model.ascending(model.Elf_Symbol.st_value)).all()
 
@@ -989,10 +989,10 @@ class ElfParser:
         # print("SECTIONS", sections)
 
         if include_pattern:
-            query = query.filter(func.regexp(model.Elf_Section.section_name, include_pattern))
+            query = query.filter(func.regexer(model.Elf_Section.section_name, include_pattern))
 
         if exclude_pattern:
-            query = query.filter(not_(func.regexp(model.Elf_Section.section_name, exclude_pattern)))
+            query = query.filter(not_(func.regexer(model.Elf_Section.section_name, exclude_pattern)))
 
         query = query.order_by(*model.ascending(model.Elf_Section.sh_addr))
         result = []
diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index 2f0584f..af39012 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -482,7 +482,7 @@ def regexer(value, expr):
 
 @event.listens_for(Engine, "connect")
 def set_sqlite3_pragmas(dbapi_connection, connection_record):
-    dbapi_connection.create_function("REGEXP", 2, regexer)
+    dbapi_connection.create_function("REGEXER", 2, regexer)  # `REGEXP` is redefined by SQLAlchemy, with swapped arguments.
     cursor = dbapi_connection.cursor()
     # cursor.execute("PRAGMA jornal_mode=WAL")
     cursor.execute("PRAGMA FOREIGN_KEYS=ON")
-- 
2.43.0


From 79bb360fbeb6e54e9ceb487221e90c79fc5f97c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:48 +0000
Subject: [PATCH 53/95] fix: visibility of ELF symbols was taken from all bits
 of st_other

---
 objutils/elf/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index af39012..8223c68 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -336,14 +336,14 @@ class Elf_Symbol(Base, RidMixIn):
 
     @hybrid_property
     def hidden(self):
-        return self.st_other in (
+        return (self.st_other & 3) in (  # The remaining bits are processor specific.
             defs.SymbolVisibility.STV_HIDDEN,
             defs.SymbolVisibility.STV_INTERNAL,
         )
 
     @hidden.expression
     def hidden(self):
-        return self.st_other.in_((defs.SymbolVisibility.STV_HIDDEN, defs.SymbolVisibility.STV_INTERNAL))
+        return self.st_other.op("&")(3).in_((defs.SymbolVisibility.STV_HIDDEN, defs.SymbolVisibility.STV_INTERNAL))
 
     @hybrid_property
     def weak(self):
-- 
2.43.0


From 4b84343b7ad6df60b4117120f00bf5a6b445b341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:20 +0000
Subject: [PATCH 54/95] fix: ELF files with non-ASCII names could not be
 imported

---
 objutils/elf/__init__.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 3d999b1..80ae94b 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -456,7 +456,7 @@ class ElfParser:
 
         self._images = {}
         self._sections_by_name = OrderedDict()
-        self.asciiCString = CString(encoding="ascii")
+        self.name_string = CString(encoding="utf8")
 
         self.create_db_on_demand()
 
@@ -577,7 +577,7 @@ class ElfParser:
     def get_string(self, table_index, entry):
         if entry > len(self._images[table_index]):
             return ""
-        name = self.asciiCString.parse(self._images[table_index][entry:])
+        name = self.name_string.parse(self._images[table_index][entry:])
         return name
 
     def _parse_program_headers(self):
-- 
2.43.0


From 869e8842df3008475448f7b675810758de351f9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:42:35 +0000
Subject: [PATCH 55/95] fix: only the first note of an ELF section was read,
 and two note sections of the same name could not be imported

---
 objutils/elf/__init__.py | 21 ++++++++++++---------
 objutils/elf/model.py    |  2 +-
 2 files changed, 13 insertions(+), 10 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 80ae94b..e95ef0c 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -537,8 +537,7 @@ class ElfParser:
                 self._sections_by_name[name] = section
                 image = self._images[idx]
                 if section.sh_type == defs.SectionType.SHT_NOTE:
-                    note_obj = self._parse_note(image)
-                    if note_obj:
+                    for note_obj in self._parse_notes(image):
                         note = model.Elf_Note(
                             section_name=name,
                             type=note_obj.type,
@@ -707,7 +706,7 @@ class ElfParser:
             i += line.pos
         return "\n".join(result)
 
-    def _parse_note(self, data):
+    def _parse_notes(self, data):
         Note = Struct(
             "namesz" / self.Word,
             "descsz" / self.Word,
@@ -715,12 +714,16 @@ class ElfParser:
             "name" / Bytes(this.namesz),
             Padding(-this.namesz % 4),  # `desc` is 4-byte aligned.
             "desc" / Bytes(this.descsz),
+            "size" / Tell,
         )
-        if not data:
-            return None
-        result = Note.parse(data)
-        result.desc = binascii.b2a_hex(result.desc).decode()
-        result.name = result.name.split(b"\x00", 1)[0].decode("ascii")
+        result = []
+        pos = 0
+        while data and len(data) - pos >= 12:
+            note = Note.parse(data[pos:])
+            note.desc = binascii.b2a_hex(note.desc).decode()
+            note.name = note.name.split(b"\x00", 1)[0].decode("ascii")
+            result.append(note)
+            pos += note.size + (-note.size % 4)  # The following note is aligned as well.
         return result
 
     def debug_sections(self):
@@ -923,7 +926,7 @@ class ElfParser:
 
     @property
     def notes(self):
-        notes = self.query(model.Elf_Note).order_by(model.Elf_Note.section_name).all()
+        notes = self.query(model.Elf_Note).order_by(model.Elf_Note.section_name, model.Elf_Note.rid).all()
         if notes:
             return notes
         else:
diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index 8223c68..aaf40e1 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -407,7 +407,7 @@ class Elf_Comment(Base, RidMixIn):
 class Elf_Note(Base, RidMixIn):
     """ """
 
-    section_name = Column(types.VARCHAR, unique=True)
+    section_name = Column(types.VARCHAR)
     type = StdInteger()
     name = Column(types.VARCHAR)
     desc = Column(types.VARCHAR)
-- 
2.43.0


From 8d386239a74127382fe154af563ce62a167423b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:03 +0000
Subject: [PATCH 56/95] fix: list of section names passed to SectionAPI.fetch()
 was ignored

---
 objutils/elf/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index e95ef0c..01be002 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -201,6 +201,9 @@ class SectionAPI(DBAPI):
         """
 
         query = self.query(model.Elf_Section)
+        if sections:
+            sections = [s for s in re.split(r"[ ,]", sections) if s]
+            query = query.filter(model.Elf_Section.section_name.in_(sections))
         if name_pattern:
             query = query.filter(func.regexer(model.Elf_Section.section_name, name_pattern))
         if order_by_address:
-- 
2.43.0


From 99dd224c40609ec39acd28170e1f54cbede2c681 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:50:08 +0000
Subject: [PATCH 57/95] fix: ELF file with a question mark in its name could be
 opened only once

---
 objutils/elf/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index aaf40e1..b2ea74b 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -30,7 +30,7 @@ import re
 import sqlite3
 
 from sqlalchemy import Column, ForeignKey, and_, create_engine, event, not_, orm, types
-from sqlalchemy.engine import Engine
+from sqlalchemy.engine import URL, Engine
 from sqlalchemy.ext.declarative import declarative_base, declared_attr
 from sqlalchemy.ext.hybrid import hybrid_method, hybrid_property
 from sqlalchemy.orm import relationship
@@ -534,7 +534,7 @@ class Model:
             self.dbname = filename
 
         self._engine = create_engine(
-            f"sqlite:///{self.dbname}",
+            URL.create("sqlite", database=str(self.dbname)),
             echo=debug,
             connect_args={"detect_types": sqlite3.PARSE_DECLTYPES | sqlite3.PARSE_COLNAMES},
             native_datetime=True,
-- 
2.43.0


From d18fd213c1d29856757a576d7674c420c61a975d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:54 +0000
Subject: [PATCH 58/95] fix: data base replaced between check and use, or
 locked after a failure, when opening an ELF file

---
 objutils/elf/__init__.py | 56 +++++++++++++++++++---------------------
 objutils/elf/model.py    | 10 ++++---
 2 files changed, 34 insertions(+), 32 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 01be002..1dfae2c 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -385,38 +385,36 @@ class ElfParser:
 
     def create_db_on_demand(self) -> None:
         db_exists = self.db_name.exists()
-        new_db = False
+        new_db = not db_exists
         hash_value = calculate_crypto_hash(self.fp.tobytes())
-        if db_exists:
-            db = model.Model(self.db_name)
-            session = db.session
-            meta = session.query(model.Meta).first()
-            if meta:
-                print(f"Calculated hash: {hash_value} DB-hash: {meta.hash_value} EQ: {hash_value == meta.hash_value}")
-            outdated = (meta is None) or (hash_value != meta.hash_value)
-            db.close()
-            if outdated:
-                new_db = True
-                try:
-                    os.unlink(self.db_name)
-                except Exception as e:
-                    print("Upps!", e)
-        else:
-            new_db = True
         self.db = model.Model(self.db_name)
-        self.session = self.db.session
-        if new_db:
-            meta = model.Meta(hash_value=hash_value)
-            self.session.add(meta)
-            try:
+        try:
+            if db_exists:
+                # Keep the connection, else the data base could be replaced between check and use.
+                meta = self.db.session.query(model.Meta).first()
+                if meta:
+                    print(f"Calculated hash: {hash_value} DB-hash: {meta.hash_value} EQ: {hash_value == meta.hash_value}")
+                outdated = (meta is None) or (hash_value != meta.hash_value)
+                if outdated:
+                    new_db = True
+                    self.db.close()
+                    try:
+                        os.unlink(self.db_name)
+                    except Exception as e:
+                        print("Upps!", e)
+                    self.db = model.Model(self.db_name)
+            self.session = self.db.session
+            if new_db:
+                meta = model.Meta(hash_value=hash_value)
+                self.session.add(meta)
                 self.load_data()
-            except BaseException:
-                self.db.close()  # Else the data base stays locked.
-                raise
-        else:
-            self._header = self.session.query(model.Elf_Header).first()
-            self._program_headers = self.session.query(model.Elf_ProgramHeaders).all()
-            self.set_data_types(self)
+            else:
+                self._header = self.session.query(model.Elf_Header).first()
+                self._program_headers = self.session.query(model.Elf_ProgramHeaders).all()
+                self.set_data_types(self)
+        except BaseException:
+            self.db.close()  # Else the data base stays locked.
+            raise
 
     def load_data(self):
         basic_header = ElfParser.BasicHeader.parse(self.fp)
diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index b2ea74b..52be097 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -543,9 +543,13 @@ class Model:
         self._session = orm.Session(self._engine, autoflush=True, autocommit=False)
 
         self._metadata = Base.metadata
-        Base.metadata.create_all(self.engine)
-        self.session.flush()
-        self.session.commit()
+        try:
+            Base.metadata.create_all(self.engine)
+            self.session.flush()
+            self.session.commit()
+        except BaseException:
+            self.close()  # Else the data base stays locked.
+            raise
 
     def close(self):
         self.session.close()
-- 
2.43.0


From 55d2113926e22f1884327a696e81bc85bcc6513b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:37:13 +0000
Subject: [PATCH 59/95] fix: journal of another data base could be applied when
 opening an ELF file

---
 objutils/elf/__init__.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 1dfae2c..fe38a4f 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -383,8 +383,16 @@ class ElfParser:
         ),
     )
 
+    def db_file_id(self) -> typing.Optional[typing.Tuple[int, int]]:
+        try:
+            st = os.stat(self.db_name)
+        except FileNotFoundError:
+            return None
+        return (st.st_dev, st.st_ino)
+
     def create_db_on_demand(self) -> None:
-        db_exists = self.db_name.exists()
+        db_file_id = self.db_file_id()
+        db_exists = db_file_id is not None
         new_db = not db_exists
         hash_value = calculate_crypto_hash(self.fp.tobytes())
         self.db = model.Model(self.db_name)
@@ -395,7 +403,9 @@ class ElfParser:
                 if meta:
                     print(f"Calculated hash: {hash_value} DB-hash: {meta.hash_value} EQ: {hash_value == meta.hash_value}")
                 outdated = (meta is None) or (hash_value != meta.hash_value)
-                if outdated:
+                # The journal of a data base which took the place of the one we have opened must not be mistaken for ours.
+                replaced = db_file_id != self.db_file_id()
+                if outdated or replaced:
                     new_db = True
                     self.db.close()
                     try:
-- 
2.43.0


From 8f5f452ac9dd91c6476c1e338456ee006865aabf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:37 +0000
Subject: [PATCH 60/95] fix: ELF files with a non-ASCII or unterminated
 .comment could not be imported

---
 objutils/elf/__init__.py | 14 +-------------
 1 file changed, 1 insertion(+), 13 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index fe38a4f..2ba368e 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -701,21 +701,9 @@ class ElfParser:
         self.session.bulk_save_objects(symbols)  # Committed by load_data(), all or nothing.
 
     def _parse_comment(self, data):
-        Line = Struct("line" / CString("ascii"), "pos" / Tell)
         if not data:
             return ""
-        length = len(data)
-        result = []
-        i = 0
-        if data.find(b"\x00") == -1:
-            return str(data, "ascii")
-        while i < length:
-            # print("*** LINE", data[i : ])
-            line = Line.parse(data[i:])
-            if line.line:
-                result.append(line.line)
-            i += line.pos
-        return "\n".join(result)
+        return "\n".join(line.decode("utf8") for line in data.split(b"\x00") if line)
 
     def _parse_notes(self, data):
         Note = Struct(
-- 
2.43.0


From e8a0657ebf6e546a115fea84b3a796c22757eca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:50 +0000
Subject: [PATCH 61/95] fix: each ELF file opened left a file descriptor open

---
 objutils/utils/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/objutils/utils/__init__.py b/objutils/utils/__init__.py
index e078952..4df7281 100644
--- a/objutils/utils/__init__.py
+++ b/objutils/utils/__init__.py
@@ -179,4 +179,7 @@ class SingletonBase:
 def create_memorymapped_fileview(filename, writeable=False):
     size = os.path.getsize(filename)
     fd = os.open(filename, os.O_RDWR if writeable else os.O_RDONLY)
-    return memoryview(mmap.mmap(fd, size, access=mmap.ACCESS_WRITE if writeable else mmap.ACCESS_READ))
+    try:
+        return memoryview(mmap.mmap(fd, size, access=mmap.ACCESS_WRITE if writeable else mmap.ACCESS_READ))
+    finally:
+        os.close(fd)  # The mapping has its own.
-- 
2.43.0


From 639ac5ea824a510cb73020ff058e8d6145a3a5cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:52 +0000
Subject: [PATCH 62/95] fix: ELF file was shown cut off if it was replaced
 while being opened

---
 objutils/utils/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/utils/__init__.py b/objutils/utils/__init__.py
index 4df7281..5d0de76 100644
--- a/objutils/utils/__init__.py
+++ b/objutils/utils/__init__.py
@@ -177,9 +177,9 @@ class SingletonBase:
 
 
 def create_memorymapped_fileview(filename, writeable=False):
-    size = os.path.getsize(filename)
     fd = os.open(filename, os.O_RDWR if writeable else os.O_RDONLY)
     try:
+        size = os.fstat(fd).st_size  # Of the very file opened: `filename` could be replaced in the meantime.
         return memoryview(mmap.mmap(fd, size, access=mmap.ACCESS_WRITE if writeable else mmap.ACCESS_READ))
     finally:
         os.close(fd)  # The mapping has its own.
-- 
2.43.0


From 9e2caf8374e4ff4f32a3fdfb914ca665782c2859 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:12 +0000
Subject: [PATCH 63/95] fix: oj_elf_info could not be started, it imported
 names from the wrong module

---
 objutils/scripts/oj_elf_info.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/objutils/scripts/oj_elf_info.py b/objutils/scripts/oj_elf_info.py
index baa301b..fee846c 100644
--- a/objutils/scripts/oj_elf_info.py
+++ b/objutils/scripts/oj_elf_info.py
@@ -29,18 +29,15 @@ __copyright__ = """
 import argparse
 
 # from objutils.dwarf import DwarfProcessor
-from objutils.elf import (
-    ElfParser,
-    model,
-    program_header_flags_name,
-    program_header_name,
-)
+from objutils.elf import ElfParser, model
 from objutils.elf.defs import (
     ELF_BYTE_ORDER_NAMES,
     ELF_CLASS_NAMES,
     ELF_TYPE_NAMES,
     ELFAbiType,
     ELFType,
+    program_header_flags_name,
+    program_header_name,
 )
 
 
-- 
2.43.0


From 40e2faf96208bf3209a2006df4673a3aff892bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 64/95] fix: ELF tools failed on types, bindings and ABIs they
 have no name for

---
 objutils/elf/defs.py            | 11 ++++++++++-
 objutils/scripts/oj_elf_info.py |  8 +++++---
 objutils/scripts/oj_elf_syms.py |  5 +++--
 3 files changed, 18 insertions(+), 6 deletions(-)

diff --git a/objutils/elf/defs.py b/objutils/elf/defs.py
index 76d1434..9481639 100644
--- a/objutils/elf/defs.py
+++ b/objutils/elf/defs.py
@@ -26,6 +26,7 @@ __copyright__ = """
 
 import enum
 import struct
+import typing
 from collections import namedtuple
 
 
@@ -43,6 +44,14 @@ Elf32_Ehdr = namedtuple(
 )
 
 
+def enum_name(enumeration: typing.Type[enum.IntEnum], value: int, prefix: str) -> str:
+    """Name of `value` without prefix, values the enumeration doesn't know (processor or OS specific ones) as a number."""
+    try:
+        return enumeration(value).name[len(prefix) :]
+    except ValueError:
+        return f"0x{value:x}"
+
+
 class ELFType(enum.IntEnum):
     ET_NONE = 0
     " No file type"
@@ -898,7 +907,7 @@ class ProgramHeader(enum.IntEnum):
 
 
 def program_header_name(tp: int) -> str:
-    return ProgramHeader(tp).name[3:]
+    return enum_name(ProgramHeader, tp, "PT_")
 
 
 PF_X = 0x1  # Execute.
diff --git a/objutils/scripts/oj_elf_info.py b/objutils/scripts/oj_elf_info.py
index fee846c..ece8a4c 100644
--- a/objutils/scripts/oj_elf_info.py
+++ b/objutils/scripts/oj_elf_info.py
@@ -36,6 +36,8 @@ from objutils.elf.defs import (
     ELF_TYPE_NAMES,
     ELFAbiType,
     ELFType,
+    SectionType,
+    enum_name,
     program_header_flags_name,
     program_header_name,
 )
@@ -76,10 +78,10 @@ def main():
     args = parser.parse_args()
     ep = ElfParser(args.elf_file)
     print(f"Class:       {ELF_CLASS_NAMES.get(ep.ei_class, '*** INVALID ***')}")
-    print(f"Type:        {ELFType(ep.e_type).name[3:]} [{ELF_TYPE_NAMES.get(ep.e_type, '')}]")
+    print(f"Type:        {enum_name(ELFType, ep.e_type, 'ET_')} [{ELF_TYPE_NAMES.get(ep.e_type, '')}]")
     print(f"Machine:     {ep.machine_data}")
     print(f"Data:        {ELF_BYTE_ORDER_NAMES.get(ep.ei_data, '*** INVALID ***')}")
-    print(f"OS/ABI       {ELFAbiType(ep.ei_osabi).name[9:]} / v{ep.ei_abiversion}")
+    print(f"OS/ABI       {enum_name(ELFAbiType, ep.ei_osabi, 'ELFOSABI_')} / v{ep.ei_abiversion}")
 
     sections = ep.query(model.Elf_Section).order_by(model.Elf_Section.index).all()
     print_header("Sections")
@@ -87,7 +89,7 @@ def main():
     print("-" * 79)
     for sec in sections:
         print(
-            f"{sec.section_name:25} {sec.section_type.name[4:]:14} {sec.sh_addr:08x} {sec.sh_offset:08x}"
+            f"{sec.section_name:25} {enum_name(SectionType, sec.sh_type, 'SHT_'):14} {sec.sh_addr:08x} {sec.sh_offset:08x}"
             f" {sec.sh_size:06x} {sec.sh_addralign:2}"
         )
 
diff --git a/objutils/scripts/oj_elf_syms.py b/objutils/scripts/oj_elf_syms.py
index 5dc4ab4..0164268 100644
--- a/objutils/scripts/oj_elf_syms.py
+++ b/objutils/scripts/oj_elf_syms.py
@@ -27,6 +27,7 @@ __copyright__ = """
 import argparse
 
 from objutils.elf import ElfParser
+from objutils.elf.defs import SymbolBinding, SymbolType, enum_name
 
 
 def main():
@@ -108,8 +109,8 @@ def main():
                     sym.symbol_name,
                     sym.st_value,
                     sym.st_size,
-                    sym.symbol_bind.name[4:],
-                    sym.symbol_type.name[4:],
+                    enum_name(SymbolBinding, sym.st_bind, "STB_"),
+                    enum_name(SymbolType, sym.st_type, "STT_"),
                     access_str,
                 )
             )
-- 
2.43.0


From 39c8a74c71392c7d0e3835cabe9fdbede9d57691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:44 +0000
Subject: [PATCH 65/95] fix: .debug_aranges was read with wrong address size
 and unit limits

---
 objutils/dwarf/__init__.py | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 4846fee..39ac943 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -924,29 +924,24 @@ class DwarfProcessor:
             "segment_size" / self.readers.u8,
             "stop" / Tell,
         )
-        Entry = Struct(
-            "start" / Tell,
-            "length" / self.readers.u32,
-            "address" / self.readers.u32,
-            "stop" / Tell,
-        )
-        offset = 0
-        finished = False
-        while True:
-            if finished:
-                break
+        while image.tell() < length:
             header = Header.parse_stream(image)
-            offset += header.stop - header.start
-            if offset >= length - 1:
-                break
-            while True:
+            unit_end = header.start + 4 + header.unit_length
+            address = Address(header.address_size, self.endianess)
+            Entry = Struct(
+                "start" / Tell,
+                "address" / address,
+                "length" / address,
+                "stop" / Tell,
+            )
+            # The first tuple starts at a multiple of the size of a tuple (counted from the start of the unit).
+            tuple_size = 2 * header.address_size
+            image.seek(header.stop + (header.start - header.stop) % tuple_size)
+            while image.tell() + tuple_size <= unit_end:
                 entry = Entry.parse_stream(image)
-                offset += entry.stop - entry.start
                 if entry.address == 0 and entry.length == 0:
                     break
-                if entry.stop >= header.unit_length:
-                    finished = True
-                    break
+            image.seek(unit_end)
 
     def dwarf_expression(self, expr: bytes) -> str:
         return self.stack_machine.evaluate(expr)
-- 
2.43.0


From cb37b9d04874e684c84b0c28fce170a43dd5d0b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:45 +0000
Subject: [PATCH 66/95] fix: only the names of the first unit of
 .debug_pubnames were read

---
 objutils/dwarf/__init__.py | 24 ++++++++----------------
 1 file changed, 8 insertions(+), 16 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 39ac943..105f8e6 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -889,25 +889,17 @@ class DwarfProcessor:
             "name" / self.readers.cstring_ascii,
             "stop" / Tell,
         )
-        offset = 0
-        finished = False
-        while True:
-            if finished:
-                break
+        while image.tell() < length:
             header = Header.parse_stream(image)
-            offset += header.stop - header.start
-            print(offset, header)
-            if offset >= length - 1:
-                break
-            while True:
+            print(header.stop, header)
+            unit_end = header.start + 4 + header.unit_length
+            while image.tell() < unit_end:
+                if self.readers.u32.parse_stream(image) == 0:
+                    break  # A zero offset ends the unit, no name follows.
+                image.seek(-4, io.SEEK_CUR)
                 entry = Entry.parse_stream(image)
-                offset += entry.stop - entry.start
                 print("ENTRY", entry)
-                if entry.offset == 0:
-                    break
-                if entry.stop >= header.unit_length:
-                    finished = True
-                    break
+            image.seek(unit_end)
 
     def aranges(self):
         if ".debug_aranges" not in self.debug_sections:
-- 
2.43.0


From 0967a2d990ccef8a4b0f6458928130e6aab012fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:47 +0000
Subject: [PATCH 67/95] fix: oj_elf_info failed on files with empty debug
 sections or without .debug_info

---
 objutils/dwarf/__init__.py      | 6 ++++--
 objutils/scripts/oj_elf_info.py | 3 ++-
 2 files changed, 6 insertions(+), 3 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 105f8e6..2317d8b 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -298,10 +298,12 @@ class DwarfProcessor:
 
         self.b64 = elf_parser.b64
         self.endianess = Endianess.Little if elf_parser.endianess == "<" else Endianess.Big
-        self.debug_sections = elf_parser.debug_sections()
+        debug_sections = elf_parser.debug_sections()
         # print(self.debug_sections.keys())
-        if not self.debug_sections:
+        if not debug_sections:
             raise TypeError("File has no DWARF sections.")
+        # Sections without content (compilers emit them for empty source files) have no image.
+        self.debug_sections = {name: section for name, section in debug_sections.items() if section.image}
         # self.debug_sections = {
         #    section.section_name: section for section in debug_sections
         # }
diff --git a/objutils/scripts/oj_elf_info.py b/objutils/scripts/oj_elf_info.py
index ece8a4c..c985ee0 100644
--- a/objutils/scripts/oj_elf_info.py
+++ b/objutils/scripts/oj_elf_info.py
@@ -137,7 +137,8 @@ def main():
         dp.pubnames()
         dp.aranges()
         dp.do_lines()
-        dp.do_dbg_info()
+        if ".debug_info" in dp.debug_sections or ".debug_global_info" in dp.debug_sections:
+            dp.do_dbg_info()
         # dp.processDebugInfo()
         dp.do_mac_info()
 
-- 
2.43.0


From 3f1ee01281c8d23743ef66570dbc51394fc6e337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:12 +0000
Subject: [PATCH 68/95] fix: images with negative addresses were encoded to
 nonsense or never

---
 objutils/hexfile.py | 6 +++++-
 objutils/srec.py    | 2 +-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 91f3bd7..6f620de 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -345,7 +345,7 @@ class Writer(BaseType):
         self.row_length = row_length
         if hasattr(image, "sections") and not image.sections:
             return b""
-        if self.calculate_address_bits(image) > self.MAX_ADDRESS_BITS:
+        if self.lowest_address(image) < 0 or self.calculate_address_bits(image) > self.MAX_ADDRESS_BITS:
             raise AddressRangeToLargeError("could not encode image.")
         self.set_parameters(**kws)
         self.pre_processing(image)
@@ -369,6 +369,10 @@ class Writer(BaseType):
         else:
             return self.post_processing(bytes("\n".join(result)))
 
+    def lowest_address(self, image):
+        sections = image.sections if hasattr(image, "sections") else [image]
+        return min(section.start_address for section in sections)
+
     def calculate_address_bits(self, image):
         if hasattr(image, "sections"):
             last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
diff --git a/objutils/srec.py b/objutils/srec.py
index ac3c4c7..4fc5816 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -173,7 +173,7 @@ class Writer(hexfile.Writer):
                 self.record_type = 3
         if self.record_type not in (1, 2, 3):
             raise hexfile.Invalidrecord_typeError(f"Invalid record_type {self.record_type!r}.")
-        if max(highest_address, self.start_address or 0) >> ((self.record_type + 1) * 8):
+        if (self.start_address or 0) < 0 or max(highest_address, self.start_address or 0) >> ((self.record_type + 1) * 8):
             raise hexfile.AddressRangeToLargeError(f"could not encode image using S{self.record_type} records.")
         self.address_mask = f"%0{(self.record_type + 1) * 2:d}X"
         self.offset = self.record_type + 2
-- 
2.43.0


From 6bdd868025387cf3092a5d7212838382cad32dc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:20:04 +0000
Subject: [PATCH 69/95] fix: bin_extractor decoded binary files as text and
 left them open

---
 objutils/utils/__init__.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/objutils/utils/__init__.py b/objutils/utils/__init__.py
index 5d0de76..2f135b9 100644
--- a/objutils/utils/__init__.py
+++ b/objutils/utils/__init__.py
@@ -111,10 +111,9 @@ def create_string_buffer(*args):
 
 def bin_extractor(fname, offset, length):
     """Extract a junk of data from a file."""
-    fp = open(fname)
-    fp.seek(offset)
-    data = fp.read(length)
-    return data
+    with open(fname, "rb") as fp:
+        fp.seek(offset)
+        return fp.read(length)
 
 
 CYG_PREFIX = "/cygdrive/"
-- 
2.43.0


From dedd0cd2c3579dbedf4832f39b5492262e4a34e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:26 +0000
Subject: [PATCH 70/95] fix: names which are not ASCII made oj_elf_info fail,
 built string lists were not terminated

Public names, macro texts and names of source files are UTF-8.
---
 objutils/dwarf/__init__.py |  8 ++++----
 objutils/dwarf/encoding.py | 10 ++++------
 2 files changed, 8 insertions(+), 10 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 2317d8b..2413788 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -535,11 +535,11 @@ class DwarfProcessor:
                 / Switch(
                     this.macType,
                     {
-                        "DW_MACINFO_define": Struct("lineNumber" / self.readers.uleb, "value" / self.readers.cstring_ascii),
-                        "DW_MACINFO_undef": Struct("lineNumber" / self.readers.uleb, "value" / self.readers.cstring_ascii),
+                        "DW_MACINFO_define": Struct("lineNumber" / self.readers.uleb, "value" / self.readers.cstring_utf8),
+                        "DW_MACINFO_undef": Struct("lineNumber" / self.readers.uleb, "value" / self.readers.cstring_utf8),
                         "DW_MACINFO_start_file": Struct("lineNumber" / self.readers.uleb, "fileNumber" / self.readers.uleb),
                         "DW_MACINFO_end_file": Pass,
-                        "DW_MACINFO_vendor_ext": Struct("constant" / self.readers.uleb, "value" / self.readers.cstring_ascii),
+                        "DW_MACINFO_vendor_ext": Struct("constant" / self.readers.uleb, "value" / self.readers.cstring_utf8),
                     },
                     default=Pass,
                 ),
@@ -888,7 +888,7 @@ class DwarfProcessor:
         Entry = Struct(
             "start" / Tell,
             "offset" / self.readers.u32,
-            "name" / self.readers.cstring_ascii,
+            "name" / self.readers.cstring_utf8,
             "stop" / Tell,
         )
         while image.tell() < length:
diff --git a/objutils/dwarf/encoding.py b/objutils/dwarf/encoding.py
index 995f018..14fd1dd 100644
--- a/objutils/dwarf/encoding.py
+++ b/objutils/dwarf/encoding.py
@@ -259,7 +259,7 @@ class StrP(Construct):
 
 class ArrayOfCStrings(Construct):
 
-    def __init__(self, encoding: str = "ascii") -> None:
+    def __init__(self, encoding: str = "utf8") -> None:
         self.str_type = CString(encoding=encoding)
         super().__init__()
 
@@ -267,7 +267,7 @@ class ArrayOfCStrings(Construct):
         result = []
 
         while True:
-            value = CString(encoding="utf8").parse_stream(stream)
+            value = self.str_type.parse_stream(stream)
             if not value:
                 break
             result.append(value)
@@ -278,9 +278,7 @@ class ArrayOfCStrings(Construct):
         if values:
             for value in values:
                 stream.write(self.str_type.build(value))
-        else:
-            stream.write(NULL_CHAR)
-        # stream.write(NULL_CHAR)
+        stream.write(NULL_CHAR)
 
 
 @dataclass
@@ -293,7 +291,7 @@ class Filename:
 
 class FilenameSequence(Construct):
 
-    def __init__(self, encoding: str = "ascii") -> None:
+    def __init__(self, encoding: str = "utf8") -> None:
         self.str_type = CString(encoding=encoding)
         super().__init__()
 
-- 
2.43.0


From 763e9441dd8461d384415d37fa124a313a29aba6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:27 +0000
Subject: [PATCH 71/95] fix: reads of negative length returned other bytes
 instead of being refused

---
 objutils/section.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/objutils/section.py b/objutils/section.py
index f2427e7..6585e3f 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -242,7 +242,7 @@ class Section:
         offset = addr - self.start_address
         if offset < 0:
             raise InvalidAddressError(f"read(0x{addr:08x}) access out of bounds.")
-        if offset + length > self.length:
+        if length < 0 or offset + length > self.length:
             raise InvalidAddressError(f"read(0x{addr:08x}) access out of bounds.")
         data = self.data[offset : offset + length]
         return data
@@ -335,7 +335,7 @@ class Section:
             pos = self.data[offset:].find(b"\x00")
         else:
             pos = length
-            if offset + length > self.length:
+            if length < 0 or offset + length > self.length:
                 raise InvalidAddressError(f"read_string(0x{addr:08x}) access out of bounds.")
         if pos == -1:
             raise TypeError("Unterminated String!!!")  # TODO: Testcase.
@@ -375,7 +375,7 @@ class Section:
         offset = addr - self.start_address
         if offset < 0:
             raise InvalidAddressError(f"read_ndarray(0x{addr:08x}) access out of bounds.")
-        if offset + length > self.length:
+        if length < 0 or offset + length > self.length:
             raise InvalidAddressError(f"read_ndarray(0x{addr:08x}) access out of bounds.")
 
         """
-- 
2.43.0


From cea5bf28813908eff4bde10c3c133eebb5c10fbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:29 +0000
Subject: [PATCH 72/95] fix: debugging entries were added to the data base
 again each time they were processed

---
 objutils/dwarf/__init__.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 2413788..5e17be5 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -665,6 +665,10 @@ class DwarfProcessor:
         dbg_section = self.debug_sections[dbg_key]
         self.abbrevations = Abbrevations(dbg_section)
 
+        # The data base may already hold the entries, from an earlier run.
+        self.db_session.query(model.DIEAttribute).delete()
+        self.db_session.query(model.DebugInformationEntry).delete()
+
         section = self.debug_sections[key]
         image = io.BytesIO(section.image)
         section_length = len(section.image)
-- 
2.43.0


From 5737de14963fe06d3d8a302af723aae0dd319852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:30 +0000
Subject: [PATCH 73/95] fix: a record which lost its only data byte was skipped
 silently

Records with a byte count are now recognised without data as well, so that byte count and checksum are verified.
---
 objutils/hexfile.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 6f620de..bb6d9ab 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -140,11 +140,10 @@ class FormatParser:
             if group_number == START:
                 expr = expr % (self.startSign,)
             elif group_number == DATA:
-                r"(?P<chunk>[0-9a-zA-Z]*)"
                 if self.data_separator is not None:
                     expr = rf"(?P<chunk>[0-9a-zA-Z{self.data_separator!s}]*)"
-                else:
-                    pass
+                elif "L" in self.fmt:  # Else records without data would pass unchecked.
+                    expr = r"(?P<chunk>[0-9a-zA-Z]*)"
             elif group_number == UNPARSED:
                 # print expr
                 pass
@@ -248,7 +247,8 @@ class Reader(BaseType):
                         # this is to handle esoteric stuff like Intel seg:offs addressing and symbols.
                         self.special_processing(container, format_type)
                         if self.is_data_line(container, format_type):
-                            sections.append(Section(container.address, container.chunk))
+                            if container.chunk:
+                                sections.append(Section(container.address, container.chunk))
                         else:
                             chunk = container.chunk if hasattr(container, "chunk") else None
                             address = container.address if hasattr(container, "address") else None
-- 
2.43.0


From 54f433c2a4619523b794398581555db83f396991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:36:29 +0000
Subject: [PATCH 74/95] fix: S-Record header and termination records which
 don't fit produced malformed documents

---
 objutils/srec.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/objutils/srec.py b/objutils/srec.py
index 4fc5816..b0a7f4c 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -189,6 +189,10 @@ class Writer(hexfile.Writer):
         else:
             offset, address_mask = self.offset, self.address_mask
         length += offset
+        if length > 255:  # Header records aren't split.
+            raise hexfile.InvalidRecordLengthError(f"S{record_type} record can't hold {len(data)} bytes of data.")
+        if address >> ((offset - 1) * 8):
+            raise hexfile.AddressRangeToLargeError(f"could not encode address {address:#x} using a S{record_type} record.")
         address_bytes = utils.int_to_array(address)
         checksum = self.checksum(make_list(address_bytes, length, data))
         mask = f"S%u%02X{address_mask!s}%s%02X"
-- 
2.43.0


From aa4a6a0f48db22ca0d5916140417da9be8be491b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:39 +0000
Subject: [PATCH 75/95] fix: empty sections hid, blocked and separated sections
 with content

---
 objutils/image.py   | 7 ++++++-
 objutils/section.py | 2 ++
 2 files changed, 8 insertions(+), 1 deletion(-)

diff --git a/objutils/image.py b/objutils/image.py
index 2f20300..9cdec1a 100644
--- a/objutils/image.py
+++ b/objutils/image.py
@@ -246,7 +246,10 @@ class Image:
             data = [ord(x) for x in data]  # array.array('B',data)
         section = Section(start_address, data)
         end_address = start_address + section.length  # Bytes, not items.
-        if any(sec.start_address < end_address and start_address < sec.start_address + sec.length for sec in self.sections):
+        if any(
+            sec.length and sec.start_address < end_address and start_address < sec.start_address + sec.length
+            for sec in self.sections
+        ):
             raise InvalidAddressError("Overlapping address-space")
         self._sections.add(section)
         if join:
@@ -274,6 +277,8 @@ class Image:
         if address not in self:
             raise InvalidAddressError("Address not in range")
         result = self._sections.bisect_right(SearchType(address))
+        while address not in self._sections[result - 1]:  # Could be an empty section.
+            result -= 1
         return self._sections[result - 1]
 
     def update_section(self, data, address=None):
diff --git a/objutils/section.py b/objutils/section.py
index 6585e3f..e3c3c13 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -438,6 +438,8 @@ def join_sections(sections):
     for section in sections:
         if not isinstance(section, Section):
             raise TypeError("'{}' is not a 'Section' instance", section)
+        if not section.length and result_sections:
+            continue  # Would keep its neighbours apart.
         if section.start_address == prev_section.start_address + prev_section.length and result_sections:
             last_segment = result_sections[-1]
             last_segment.data.extend(section.data)
-- 
2.43.0


From d628967ff0ef8c70c0b52b643ad1145358bddb66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:33 +0000
Subject: [PATCH 76/95] fix: S-Records with data, but a byte count of none were
 accepted

---
 objutils/srec.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/srec.py b/objutils/srec.py
index b0a7f4c..586e80b 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -102,7 +102,7 @@ class Reader(hexfile.Reader):
         if line.checksum != checksum:
             raise hexfile.InvalidRecordChecksumError()
         line.length -= BIAS[format_type]  # calculate actual data length.
-        if hasattr(line, "chunk") and line.length and (line.length != len(line.chunk)):
+        if hasattr(line, "chunk") and (line.length != len(line.chunk)):
             raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
 
     def is_data_line(self, line, format_type):
-- 
2.43.0


From 040e894937077e77b5ecc554e57b35b3826cd5b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:33 +0000
Subject: [PATCH 77/95] fix: damaged groups and wrong byte counts of FPC
 records were accepted

---
 objutils/fpc.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/objutils/fpc.py b/objutils/fpc.py
index dc52513..caa58ba 100644
--- a/objutils/fpc.py
+++ b/objutils/fpc.py
@@ -69,13 +69,18 @@ class Reader(hexfile.Reader):
                 pass  # todo: FormatError!!!
 
             if (len(line) % 5) != 0:
-                pass  # todo: FormatError!!!
+                raise hexfile.InvalidRecordLengthError("Records are made of groups of five characters.")
 
             values = []
             for quintuple in self.split_quintuples(line):
                 value = self.convert_quintuple(quintuple)
+                if value > 0xFFFFFFFF:
+                    raise ValueError(f"Group {quintuple!r} exceeds 32 bits.")
                 values.append(f"{value:08X}")
-            out_lines.append("".join(values))
+            record = "".join(values)
+            if not any(fmt.match(record) for _, fmt in self.formats):
+                raise hexfile.Invalidrecord_typeError(f"Invalid record {record!r}.")
+            out_lines.append(record)
         return "\n".join(out_lines)
 
     def read(self, fp):
@@ -98,6 +103,8 @@ class Reader(hexfile.Reader):
         if format_type == EOF:
             return True
         line.length -= 4
+        if not 0 <= line.length <= len(line.chunk):
+            raise hexfile.InvalidRecordLengthError("Byte count doesn't match length of actual data.")
         if line.length != len(line.chunk):
             line.chunk = line.chunk[: line.length]  # Cut padding.
         if format_type == DATA_ABS:
-- 
2.43.0


From a5530b3885ed882cdde7851b6c0af47390bb9a75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:33 +0000
Subject: [PATCH 78/95] fix: Intel HEX records with a damaged type were skipped
 silently

---
 objutils/hexfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index bb6d9ab..341953d 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -64,7 +64,7 @@ ADDR_CHECKSUM = 7
 
 MAP_GROUP_TO_REGEX = {
     LENGTH: r"(?P<length>[0-9a-zA-Z]{%d})",
-    TYPE: r"(?P<type>\d{%d})",
+    TYPE: r"(?P<type>[0-9a-zA-Z]{%d})",
     ADDRESS: r"(?P<address>[0-9a-zA-Z]{%d})",
     DATA: r"(?P<chunk>[0-9a-zA-Z]+)",
     UNPARSED: r"(?P<chunk>.*)",
-- 
2.43.0


From 0995525eae7d9ba8a7ec4d721b00768e9ced9b5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:33 +0000
Subject: [PATCH 79/95] fix: empty section let images exceed the address limits
 of hex formats

---
 objutils/hexfile.py | 12 ++++++------
 objutils/srec.py    |  6 +-----
 2 files changed, 7 insertions(+), 11 deletions(-)

diff --git a/objutils/hexfile.py b/objutils/hexfile.py
index 341953d..8255b6a 100644
--- a/objutils/hexfile.py
+++ b/objutils/hexfile.py
@@ -374,12 +374,12 @@ class Writer(BaseType):
         return min(section.start_address for section in sections)
 
     def calculate_address_bits(self, image):
-        if hasattr(image, "sections"):
-            last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
-        else:
-            last_segment = image
-        highest_address = last_segment.start_address + last_segment.length - 1  # Last occupied address.
-        return max(highest_address, 0).bit_length()
+        return max(self.highest_address(image), 0).bit_length()
+
+    def highest_address(self, image):
+        # Not necessarily located in the last section, it could be an empty one.
+        sections = image.sections if hasattr(image, "sections") else [image]
+        return max(section.start_address + section.length for section in sections) - 1  # Last occupied address.
 
     def post_processing(self, data):
         if not data.endswith(b"\n"):
diff --git a/objutils/srec.py b/objutils/srec.py
index 586e80b..2c695f0 100644
--- a/objutils/srec.py
+++ b/objutils/srec.py
@@ -159,11 +159,7 @@ class Writer(hexfile.Writer):
             self.record_type = record_type  # The type chosen for this image must not be used for the next one.
 
     def pre_processing(self, image):
-        if hasattr(image, "sections"):
-            last_segment = sorted(image.sections, key=lambda s: s.start_address)[-1]
-        else:
-            last_segment = image
-        highest_address = last_segment.start_address + last_segment.length - 1  # Last occupied address.
+        highest_address = self.highest_address(image)
         if self.record_type is None:
             if highest_address <= 0x000000FFFF:
                 self.record_type = 1
-- 
2.43.0


From b0d38af8f1b7b4b5ce5fb6fbc969768b8caa5e76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:33 +0000
Subject: [PATCH 80/95] fix: empty sections added filler to binary dumps

---
 objutils/binfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/binfile.py b/objutils/binfile.py
index 5ba616f..9cf02ec 100644
--- a/objutils/binfile.py
+++ b/objutils/binfile.py
@@ -91,6 +91,8 @@ class Writer:
             return b""
         sections = sorted(image.sections, key=lambda x: x.start_address)
         for section in sections:
+            if not section.length:
+                continue  # Holds no address, hence there is no gap in front of it.
             if previous_address is not None:
                 gap = section.start_address - (previous_address + previous_length)
                 if gap > 0:
-- 
2.43.0


From d35c21d1a5a12defa42643d6fe3bedc11fdb1780 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 81/95] fix: images built with join=False have sections of
 their own

---
 objutils/image.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/objutils/image.py b/objutils/image.py
index 9cdec1a..4177ccf 100644
--- a/objutils/image.py
+++ b/objutils/image.py
@@ -75,6 +75,9 @@ class Image:
             sections = []
         elif isinstance(sections, Section) or hasattr(sections, "__iter__"):
             sections = list(sections)
+            if not join:  # Joining creates new sections, too.
+                _validate_sections(sections)
+                sections = [Section(section.start_address, section.data) for section in sections]
         else:
             raise TypeError(f"Argument section is of wrong type '{sections}'")
         self._sections = SortedList(sections, key=attrgetter("start_address"))
-- 
2.43.0


From fe49030d03e75d721d934ca7b5493db2bec70a24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 82/95] fix: is_debug and is_dwo match the case of names in
 queries, too

---
 objutils/elf/model.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/objutils/elf/model.py b/objutils/elf/model.py
index 52be097..3da2f77 100644
--- a/objutils/elf/model.py
+++ b/objutils/elf/model.py
@@ -220,10 +220,18 @@ class Elf_Section(Base, RidMixIn):
     def is_debug(self):
         return self.section_name.startswith(".debug")
 
+    @is_debug.expression
+    def is_debug(self):  # LIKE ignores case.
+        return func.substr(self.section_name, 1, 6) == ".debug"
+
     @hybrid_property
     def is_dwo(self):
         return self.section_name.startswith(".dwo")
 
+    @is_dwo.expression
+    def is_dwo(self):
+        return func.substr(self.section_name, 1, 4) == ".dwo"
+
     @hybrid_property
     def has_content(self):
         return self.sh_type not in (
-- 
2.43.0


From 6001e6621c07e4d24c9d5a5438a28f37d1976c53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 83/95] fix: ELF files without or with empty string and symbol
 tables can be opened

---
 objutils/elf/__init__.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 2ba368e..0d94d90 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -585,9 +585,10 @@ class ElfParser:
             self.session.bulk_save_objects(sections)
 
     def get_string(self, table_index, entry):
-        if entry > len(self._images[table_index]):
+        image = self._images[table_index] or b""  # No or an empty string table.
+        if entry >= len(image):
             return ""
-        name = self.name_string.parse(self._images[table_index][entry:])
+        name = self.name_string.parse(image[entry:])
         return name
 
     def _parse_program_headers(self):
@@ -668,10 +669,10 @@ class ElfParser:
                 "st_shndx" / self.Half,
             )
         symbol_cache = {}
-        # num_symbols = len(section.image) // Symbol.sizeof()
-        for offset in range(0, len(section.image), Symbol.sizeof()):
+        image = section.image or b""
+        for offset in range(0, len(image), Symbol.sizeof()):
             try:
-                sym = Symbol.parse(section.image[offset : offset + Symbol.sizeof()])
+                sym = Symbol.parse(image[offset : offset + Symbol.sizeof()])
             except StreamError as e:
                 print(f"parse symbol section: {e}")
                 continue
-- 
2.43.0


From f2ec9c6acbeede78359d3c840cef1388d3a8160f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 84/95] fix: hex dumps show the whole address of sections above
 4 GiB

---
 objutils/section.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/objutils/section.py b/objutils/section.py
index e3c3c13..a33d78e 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -197,7 +197,8 @@ class Section:
         yield self
 
     def hexdump(self, fp=sys.stdout):
-        dumper = hexdump.CanonicalDumper(fp)
+        num_address_bits = 32 if self.start_address + self.length <= 2**32 else 64
+        dumper = hexdump.CanonicalDumper(fp, num_address_bits)
         dumper.dump_data(self)
 
     def tobytes(self):
-- 
2.43.0


From ed8712323ad3001ad9bd0348e149d9ffc8dda4c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 85/95] fix: joining drops an empty section in front of others

---
 objutils/section.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/objutils/section.py b/objutils/section.py
index a33d78e..9de0cbc 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -441,6 +441,8 @@ def join_sections(sections):
             raise TypeError("'{}' is not a 'Section' instance", section)
         if not section.length and result_sections:
             continue  # Would keep its neighbours apart.
+        if result_sections and not prev_section.length:
+            result_sections.clear()  # An empty section is only kept if there are no others.
         if section.start_address == prev_section.start_address + prev_section.length and result_sections:
             last_segment = result_sections[-1]
             last_segment.data.extend(section.data)
-- 
2.43.0


From eef10df9f19955e49b4e6e36e2cced4c2459a3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 86/95] fix: Tag_compatibility consists of a flag and a vendor
 name

---
 objutils/elf/arm/attributes.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/objutils/elf/arm/attributes.py b/objutils/elf/arm/attributes.py
index 3750b84..832a184 100644
--- a/objutils/elf/arm/attributes.py
+++ b/objutils/elf/arm/attributes.py
@@ -34,8 +34,10 @@ from construct import (
     Bytes,
     Computed,
     CString,
+    ExprAdapter,
     Int32ub,
     Int32ul,
+    Sequence,
     Struct,
     Switch,
     Tell,
@@ -54,6 +56,7 @@ class Reader(IntEnum):
     INT32 = 1
     CSTRING = 2
     ULEB = 3
+    ULEB_CSTRING = 4
 
 
 Ident = {}
@@ -335,7 +338,7 @@ ATTRIBUTES = {
     29: AttributeDescription("Tag_ABI_WMMX_args", 29, Reader.ULEB, Tag_ABI_WMMX_args),
     30: AttributeDescription("Tag_ABI_optimization_goals", 30, Reader.ULEB, Tag_ABI_optimization_goals),
     31: AttributeDescription("Tag_ABI_FP_optimization_goals", 31, Reader.ULEB, Tag_ABI_FP_optimization_goals),
-    32: AttributeDescription("Tag_compatibility", 32, Reader.CSTRING, Ident),
+    32: AttributeDescription("Tag_compatibility", 32, Reader.ULEB_CSTRING, Ident),
     34: AttributeDescription("Tag_CPU_unaligned_access", 34, Reader.ULEB, Tag_CPU_unaligned_access),
     36: AttributeDescription(
         "Tag_FP_HP_extension (was Tag_VFP_HP_extension)",
@@ -443,6 +446,11 @@ def parse(buffer, byteorder="<"):
         "data" / Bytes(this.len - this._pos),
     )
 
+    Compatibility = ExprAdapter(
+        Sequence(ULEB, CString(encoding="ascii")),
+        lambda obj, ctx: f"flag = {obj[0]}, vendor = {obj[1]}",
+        None,
+    )
     RawAttribute = Struct(
         "tag" / ULEB,
         "parameterType" / Computed(lambda ctx: attribute_description(ctx.tag).parameterType),
@@ -455,6 +463,7 @@ def parse(buffer, byteorder="<"):
                 Reader.INT32: Integer,
                 Reader.ULEB: ULEB,
                 Reader.CSTRING: CString(encoding="ascii"),
+                Reader.ULEB_CSTRING: Compatibility,
             },
         ),
         "pos" / Tell,
-- 
2.43.0


From 7ec6f17c8301ee671fca20643943ef3ce9e9e2da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:46:22 +0000
Subject: [PATCH 87/95] fix: numbers of sections and symbols are not attributes
 (ARM)

---
 objutils/elf/arm/attributes.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/objutils/elf/arm/attributes.py b/objutils/elf/arm/attributes.py
index 832a184..3284501 100644
--- a/objutils/elf/arm/attributes.py
+++ b/objutils/elf/arm/attributes.py
@@ -59,6 +59,14 @@ class Reader(IntEnum):
     ULEB_CSTRING = 4
 
 
+class Scope(IntEnum):
+    """ """
+
+    FILE = 1
+    SECTION = 2
+    SYMBOL = 3
+
+
 Ident = {}
 
 Tag_CPU_arch = {
@@ -468,6 +476,7 @@ def parse(buffer, byteorder="<"):
         ),
         "pos" / Tell,
     )
+    Number = Struct("value" / ULEB, "pos" / Tell)
     i = 1
     length = len(buffer)
     result = {}
@@ -481,6 +490,12 @@ def parse(buffer, byteorder="<"):
             res = SubSectionHeader.parse(section.data[offset:])
             offset += res.len
             j = 0
+            if res.tag in (Scope.SECTION, Scope.SYMBOL):  # Preceded by the numbers they apply to.
+                number = Number.parse(res.data)
+                j = number.pos
+                while number.value:
+                    number = Number.parse(res.data[j:])
+                    j += number.pos
             while j < len(res.data):
                 attr = RawAttribute.parse(res.data[j:])
                 r = Attribute(attr.tag, attr.name, attr.value)
-- 
2.43.0


From 32fe2b16e9ef379d9ba8a0ebd7117e08ec5f15da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 88/95] fix: comments of all .comment sections are shown

---
 objutils/elf/__init__.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 0d94d90..dda6fe0 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -918,9 +918,9 @@ class ElfParser:
 
     @property
     def comment(self):
-        comment = self.query(model.Elf_Comment).first()
-        if comment:
-            return comment.text
+        comments = self.query(model.Elf_Comment).order_by(model.Elf_Comment.rid).all()  # One per section.
+        if comments:
+            return "\n".join(comment.text for comment in comments)
         else:
             return None
 
-- 
2.43.0


From cd4487bd9df16bdd0b93a0abe8244e3bb56377d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 89/95] fix: empty sections of ARM attributes have no
 attributes

---
 objutils/elf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index dda6fe0..0461b59 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -911,7 +911,7 @@ class ElfParser:
     @property
     def arm_attributes(self):
         res = self.query(model.Elf_Section).filter(model.Elf_Section.section_name == ".ARM.attributes").first()
-        if res:
+        if res and len(res.section_image or b"") > 1:  # More than the format version.
             return attributes.parse(res.section_image, byteorder=self.endianess)
         else:
             return {}
-- 
2.43.0


From c37850d5432b5d8dd8ec537550b8469e88661838 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 90/95] fix: header_bytes of an ELF file

---
 objutils/elf/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 0461b59..59b7261 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -846,7 +846,7 @@ class ElfParser:
 
     @property
     def header_bytes(self):
-        return self._basic_header.header.bytes
+        return self.fp[: self.EI_NIDENT].tobytes()
 
     @property
     def e_type(self):
-- 
2.43.0


From 1dfc20a8e6ed8b593e6a85277fda11dd59f68c39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:02:47 +0000
Subject: [PATCH 91/95] fix: notes of sections with an alignment of eight bytes

---
 objutils/elf/__init__.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/objutils/elf/__init__.py b/objutils/elf/__init__.py
index 59b7261..581a6b3 100644
--- a/objutils/elf/__init__.py
+++ b/objutils/elf/__init__.py
@@ -548,7 +548,7 @@ class ElfParser:
                 self._sections_by_name[name] = section
                 image = self._images[idx]
                 if section.sh_type == defs.SectionType.SHT_NOTE:
-                    for note_obj in self._parse_notes(image):
+                    for note_obj in self._parse_notes(image, section.sh_addralign):
                         note = model.Elf_Note(
                             section_name=name,
                             type=note_obj.type,
@@ -706,13 +706,14 @@ class ElfParser:
             return ""
         return "\n".join(line.decode("utf8") for line in data.split(b"\x00") if line)
 
-    def _parse_notes(self, data):
+    def _parse_notes(self, data, alignment=4):
+        alignment = 8 if alignment == 8 else 4
         Note = Struct(
             "namesz" / self.Word,
             "descsz" / self.Word,
             "type" / self.Word,
             "name" / Bytes(this.namesz),
-            Padding(-this.namesz % 4),  # `desc` is 4-byte aligned.
+            Padding(-(12 + this.namesz) % alignment),  # `desc` is aligned.
             "desc" / Bytes(this.descsz),
             "size" / Tell,
         )
@@ -723,7 +724,7 @@ class ElfParser:
             note.desc = binascii.b2a_hex(note.desc).decode()
             note.name = note.name.split(b"\x00", 1)[0].decode("ascii")
             result.append(note)
-            pos += note.size + (-note.size % 4)  # The following note is aligned as well.
+            pos += note.size + (-note.size % alignment)  # The following note is aligned as well.
         return result
 
     def debug_sections(self):
-- 
2.43.0


From 3f5220bb482cc983c643b521b68a370e3460c83d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:40:43 +0000
Subject: [PATCH 92/95] fix: DW_FORM_ref_addr has the size of an address in
 DWARF 2

---
 objutils/dwarf/__init__.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/objutils/dwarf/__init__.py b/objutils/dwarf/__init__.py
index 5e17be5..d9118c9 100644
--- a/objutils/dwarf/__init__.py
+++ b/objutils/dwarf/__init__.py
@@ -577,7 +577,7 @@ class DwarfProcessor:
 
             MacroInformationHeader.parse_stream(image)
 
-    def get_form_readers(self, addressSize):
+    def get_form_readers(self, addressSize, version=5):
         return {
             constants.AttributeForm.DW_FORM_string: self.readers.cstring_utf8,
             constants.AttributeForm.DW_FORM_udata: self.readers.uleb,
@@ -592,7 +592,9 @@ class DwarfProcessor:
             constants.AttributeForm.DW_FORM_block2: self.readers.block2,
             constants.AttributeForm.DW_FORM_block4: self.readers.block4,
             constants.AttributeForm.DW_FORM_flag: self.readers.u8,
-            constants.AttributeForm.DW_FORM_ref_addr: self.readers.u32,
+            constants.AttributeForm.DW_FORM_ref_addr: (
+                self.readers.u32 if version > 2 else Address(addressSize, self.endianess)  # An address in DWARF 2.
+            ),
             constants.AttributeForm.DW_FORM_ref1: self.readers.u8,
             constants.AttributeForm.DW_FORM_ref2: self.readers.u16,
             constants.AttributeForm.DW_FORM_ref4: self.readers.u32,
@@ -754,7 +756,7 @@ class DwarfProcessor:
             level = 0
             pos = 0
             offset += dbgInfo.stop - dbgInfo.start
-            form_readers = self.get_form_readers(address_size)
+            form_readers = self.get_form_readers(address_size, version)
             print("Pos, Length", pos, cu_length)
             if pos >= cu_length:
                 break
-- 
2.43.0


From 50b939828e76f339bb973543faa436c14ad59270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:35 +0000
Subject: [PATCH 93/95] fix: SHF block whose checksum is written in upper case
 was dropped

---
 objutils/shf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/shf.py b/objutils/shf.py
index bf7a054..010179f 100644
--- a/objutils/shf.py
+++ b/objutils/shf.py
@@ -120,7 +120,7 @@ class Reader:
             checksum = attrib.get("checksum")
             if checksum:
                 checksum = remove_ws(checksum)
-                if sha1_digest(section_data) != checksum:
+                if sha1_digest(section_data) != checksum.lower():
                     self.logger.error(f"Block #{idx}: Wrong `checksum`.")
                     continue
             else:
-- 
2.43.0


From 6abe7f31e635b1c586fc895faf4588750da8f903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:35 +0000
Subject: [PATCH 94/95] fix: SHF document with an empty block could not be
 loaded

---
 objutils/shf.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/objutils/shf.py b/objutils/shf.py
index 010179f..6125627 100644
--- a/objutils/shf.py
+++ b/objutils/shf.py
@@ -87,7 +87,7 @@ class Reader:
         sections = []
         for idx, child in enumerate(root):
             attrib = child.attrib
-            text = remove_ws(child.text)
+            text = remove_ws(child.text or "")
             section_data = bytearray.fromhex(text)
             name = attrib.get("name")
             if name is None:
-- 
2.43.0


From 6bf12882976e99efe8f70a71b6b1137815d4691c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:35:51 +0000
Subject: [PATCH 95/95] fix: strings in UTF-16 and UTF-32 were terminated by a
 single zero byte and read back cut off

---
 objutils/section.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/objutils/section.py b/objutils/section.py
index 9de0cbc..e80407c 100644
--- a/objutils/section.py
+++ b/objutils/section.py
@@ -27,6 +27,7 @@ __copyright__ = """
   51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 """
 
+import codecs
 import re
 import reprlib
 import struct
@@ -177,6 +178,11 @@ def _data_converter(data):
     return data
 
 
+def _terminator(encoding):
+    """NUL character, as wide as the code units of the encoding."""
+    return bytes({"utf-16": 2, "utf-32": 4}.get(codecs.lookup(encoding).name[:6], 1))
+
+
 @attr.s(repr=False, eq=True, order=True)
 class Section:
     """Manage sections.
@@ -334,6 +340,10 @@ class Section:
             raise InvalidAddressError(f"read_string(0x{addr:08x}) access out of bounds.")
         if length == -1:
             pos = self.data[offset:].find(b"\x00")
+            nul = _terminator(encoding)
+            if len(nul) > 1:  # Zero bytes may also be part of a character.
+                data = self.data[offset:]
+                pos = next((idx for idx in range(0, len(data), len(nul)) if data.startswith(nul, idx)), -1)
         else:
             pos = length
             if length < 0 or offset + length > self.length:
@@ -346,7 +356,7 @@ class Section:
         offset = addr - self.start_address
         if offset < 0:
             raise InvalidAddressError(f"write_string(0x{addr:08x}) access out of bounds.")
-        data = bytes(value, encoding=encoding) + b"\x00"
+        data = bytes(value, encoding=encoding) + _terminator(encoding)
         if offset + len(data) > self.length:
             raise InvalidAddressError(f"write_string(0x{addr:08x}) access out of bounds.")
         self.data[offset : offset + len(data)] = data
-- 
2.43.0

