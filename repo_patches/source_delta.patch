From 974dca704324ec0210c0db52400c46d241a33a42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:50:41 +0000
Subject: [PATCH 01/49] fix: compiled reader seeks to a block of fields that
 does not start where the previous field ended

---
 dissect/cstruct/compiler.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 1b608a4..4400297 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -138,12 +138,17 @@ class _ReadSourceGenerator:
         prev_bits_type = None
         bits_remaining = 0
         bits_rollover = False
+        block_seek = False
 
         def flush() -> Iterator[str]:
             if current_block:
                 if self.align and current_block[0].offset is None:
                     yield f"stream.seek(-stream.tell() & ({current_block[0].alignment} - 1), {io.SEEK_CUR})"
 
+                if block_seek:
+                    # The previous field ended somewhere else than where this block starts
+                    yield f"stream.seek(o + {current_block[0].offset})"
+
                 yield from self._generate_packed(current_block)
                 current_block[:] = []
 
@@ -198,23 +203,31 @@ class _ReadSourceGenerator:
                 if size is None:
                     raise TypeError(f"Unsupported type for bit field: {field_type}")
 
-                if not prev_was_bits:
-                    prev_bits_type = field_type
-                    prev_was_bits = True
+                prev_was_bits = True
 
                 if bits_remaining == 0 or prev_bits_type != field_type:
-                    bits_remaining = (size * 8) - field.bits
+                    prev_bits_type = field_type
+                    bits_remaining = size * 8
                     bits_rollover = True
 
+                bits_remaining -= field.bits
+
                 yield from flush()
                 yield from align_to_field(field)
                 yield from self._generate_bits(field)
 
             # Everything else - basic and composite types (and arrays of them)
             else:
+                if not current_block:
+                    block_seek = field.offset is not None and field.offset != current_offset
+                    if block_seek:
+                        current_offset = field.offset
+
                 current_block.append(field)
 
-            if current_offset is not None and size is not None and (not field.bits or bits_rollover):
+            if size is None:
+                current_offset = None
+            elif current_offset is not None and (not field.bits or bits_rollover):
                 current_offset += size
                 bits_rollover = False
 
-- 
2.43.0


From 0a782d664854db4ae1f0ef6060224f01ba7119ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:10 +0000
Subject: [PATCH 02/49] fix: compiled reader aligns every field after a dynamic
 field

---
 dissect/cstruct/compiler.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 4400297..25c4522 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -218,6 +218,15 @@ class _ReadSourceGenerator:
 
             # Everything else - basic and composite types (and arrays of them)
             else:
+                if (
+                    self.align
+                    and field.offset is None
+                    and current_block
+                    and field.alignment > current_block[0].alignment
+                ):
+                    # The block may start at an offset that's not aligned for this field, so start a new block
+                    yield from flush()
+
                 if not current_block:
                     block_seek = field.offset is not None and field.offset != current_offset
                     if block_seek:
-- 
2.43.0


From a2d975bdad20ca725a77890d6ecc7a50ff5c47f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:24 +0000
Subject: [PATCH 03/49] fix: bit-fields that share a storage unit are not
 aligned individually, and may follow a dynamic field

---
 dissect/cstruct/compiler.py        |  8 ++++----
 dissect/cstruct/types/structure.py | 28 ++++++++++++++++++----------
 2 files changed, 22 insertions(+), 14 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 25c4522..cffc6ac 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -205,15 +205,16 @@ class _ReadSourceGenerator:
 
                 prev_was_bits = True
 
-                if bits_remaining == 0 or prev_bits_type != field_type:
+                bits_rollover = bits_remaining == 0 or prev_bits_type != field_type
+                if bits_rollover:
                     prev_bits_type = field_type
                     bits_remaining = size * 8
-                    bits_rollover = True
 
                 bits_remaining -= field.bits
 
                 yield from flush()
-                yield from align_to_field(field)
+                if bits_rollover:
+                    yield from align_to_field(field)
                 yield from self._generate_bits(field)
 
             # Everything else - basic and composite types (and arrays of them)
@@ -238,7 +239,6 @@ class _ReadSourceGenerator:
                 current_offset = None
             elif current_offset is not None and (not field.bits or bits_rollover):
                 current_offset += size
-                bits_rollover = False
 
         yield from flush()
 
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index a1074af..32c1ade 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -174,19 +174,19 @@ class StructureMetaType(MetaType):
                 # If a field already has an offset, it's leading
                 offset = field.offset
 
-            if align and offset is not None:
-                # Round to next alignment
-                offset += -offset & (field.alignment - 1)
-
             # The alignment of this struct is equal to its largest members' alignment
             alignment = max(alignment, field.alignment)
 
-            if field.bits:
-                field_type = field.type
+            field_type = field.type
+            if isinstance(field_type, EnumMetaType):
+                field_type = field_type.type
 
-                if isinstance(field_type, EnumMetaType):
-                    field_type = field_type.type
+            shares_unit = field.bits and field.offset is None and bits_remaining > 0 and field_type == bits_type
+            if align and offset is not None and not shares_unit:
+                # Round to next alignment
+                offset += -offset & (field.alignment - 1)
 
+            if field.bits:
                 # Bit fields have special logic
                 if (
                     # Exhausted a bit field
@@ -194,7 +194,12 @@ class StructureMetaType(MetaType):
                     # Moved to a bit field of another type, e.g. uint16 f1 : 8, uint32 f2 : 8;
                     or field_type != bits_type
                     # Still processing a bit field, but it's at a different offset due to alignment or a manual offset
-                    or (bits_type is not None and offset > bits_field_offset + bits_type.size)
+                    or (
+                        bits_type is not None
+                        and offset is not None
+                        and bits_field_offset is not None
+                        and offset > bits_field_offset + bits_type.size
+                    )
                 ):
                     # ... if any of this is true, we have to move to the next field
                     bits_type = field_type
@@ -253,7 +258,10 @@ class StructureMetaType(MetaType):
                 offset = struct_start + field.offset
                 stream.seek(offset)
 
-            if cls.__align__ and field.offset is None:
+            bits_type = (field.type.type if isinstance(field.type, EnumMetaType) else field.type) if field.bits else None
+            shares_unit = bits_type is not None and bit_buffer._remaining and bit_buffer._type == bits_type
+
+            if cls.__align__ and field.offset is None and not shares_unit:
                 # Previous field was dynamically sized and we need to align
                 offset += -offset & (field.alignment - 1)
                 stream.seek(offset)
-- 
2.43.0


From 0c2469413cd68afd6912153863b008da4ec2dcbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:28 +0000
Subject: [PATCH 04/49] fix: write bit-fields of signed storage units with the
 top bit set

---
 dissect/cstruct/bitbuffer.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/bitbuffer.py b/dissect/cstruct/bitbuffer.py
index 57b1fb4..edf85f0 100644
--- a/dissect/cstruct/bitbuffer.py
+++ b/dissect/cstruct/bitbuffer.py
@@ -71,7 +71,12 @@ class BitBuffer:
 
     def flush(self) -> None:
         if self._type is not None:
-            self._type._write(self.stream, self._buffer)
+            value = self._buffer
+            if _is_signed(self._type) and value >> (self._type.size * 8 - 1) == 1:
+                # The top bit of the storage unit is the sign bit of its type
+                value -= 1 << (self._type.size * 8)
+
+            self._type._write(self.stream, value)
         self._type = None
         self._remaining = 0
         self._buffer = 0
@@ -80,3 +85,7 @@ class BitBuffer:
         self._type = None
         self._buffer = 0
         self._remaining = 0
+
+
+def _is_signed(type_: type[BaseType]) -> bool:
+    return getattr(type_, "signed", False) or getattr(type_, "packchar", "").islower()
-- 
2.43.0


From a15f1aa3bf8fd1482df15fe2a0a185b783120b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:53 +0000
Subject: [PATCH 05/49] fix: compiled reader of enum arrays and pointers over
 odd-width integer types

---
 dissect/cstruct/compiler.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index cffc6ac..74b1e53 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -325,10 +325,14 @@ class _ReadSourceGenerator:
                 reads.append(f"_t = {self._map_field(field)}")
                 reads.append("_et = _t.type")
 
-                if issubclass(field_type.type, Int):
+                if issubclass(read_type, Int):
                     reads.append(f"_b = {getter}")
-                    item_parser = parser_template.format(type="_et", getter=f"_b[i:i + {field_type.type.size}]")
-                    list_comp = f"[{item_parser} for i in range(0, {count}, {field_type.type.size})]"
+                    item_getter = f"_b[i:i + {read_type.size}]"
+                    if issubclass(field_type.type, Pointer):
+                        item_parser = f"_et.__new__(_et, cls.cs.pointer({item_getter}), stream, r)"
+                    else:
+                        item_parser = parser_template.format(type="_et", getter=item_getter)
+                    list_comp = f"[{item_parser} for i in range(0, {count}, {read_type.size})]"
                 elif issubclass(field_type.type, Pointer):
                     item_parser = "_et.__new__(_et, e, stream, r)"
                     list_comp = f"[{item_parser} for e in {getter}]"
@@ -341,6 +345,8 @@ class _ReadSourceGenerator:
                 parser = f"type.__call__({self._map_field(field)}, {getter})"
             elif issubclass(field_type, Pointer):
                 reads.append(f"_pt = {self._map_field(field)}")
+                if issubclass(read_type, Int):
+                    getter = f"cls.cs.pointer({getter})"
                 parser = f"_pt.__new__(_pt, {getter}, stream, r)"
             else:
                 parser = parser_template.format(type=self._map_field(field), getter=getter)
-- 
2.43.0


From 377e2c92e1dd13c69a21449ba5a221c7e620d156 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:57 +0000
Subject: [PATCH 06/49] fix: uint48 carries its own name

---
 dissect/cstruct/cstruct.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/cstruct.py b/dissect/cstruct/cstruct.py
index 548b3f5..e4e7f7b 100644
--- a/dissect/cstruct/cstruct.py
+++ b/dissect/cstruct/cstruct.py
@@ -73,7 +73,7 @@ class cstruct:
             "int24": self._make_int_type("int24", 3, True, alignment=4),
             "uint24": self._make_int_type("uint24", 3, False, alignment=4),
             "int48": self._make_int_type("int48", 6, True, alignment=8),
-            "uint48": self._make_int_type("int48", 6, False, alignment=8),
+            "uint48": self._make_int_type("uint48", 6, False, alignment=8),
             "int128": self._make_int_type("int128", 16, True, alignment=16),
             "uint128": self._make_int_type("uint128", 16, False, alignment=16),
 
-- 
2.43.0


From dce55eda21c76270c9b61370537c44725d24d4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:52 +0000
Subject: [PATCH 07/49] fix: dumping a union writes every member's bytes, also
 where the largest member has padding or is anonymous

---
 dissect/cstruct/types/structure.py | 51 ++++++++++++++++++------------
 1 file changed, 31 insertions(+), 20 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 32c1ade..124d93a 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -12,6 +12,7 @@ from typing import TYPE_CHECKING, Any, BinaryIO, Callable
 
 from dissect.cstruct.bitbuffer import BitBuffer
 from dissect.cstruct.types.base import (
+    BaseArray,
     BaseType,
     MetaType,
     _is_buffer_type,
@@ -520,33 +521,33 @@ class UnionMetaType(StructureMetaType):
         if cls.dynamic:
             raise NotImplementedError("Writing dynamic unions is not yet supported")
 
-        offset = stream.tell()
-        expected_offset = offset + len(cls)
+        # Sort by largest field, but prefer to write regular fields over anonymous structures
+        fields = sorted(
+            cls.__fields__,
+            key=lambda e: (isinstance(e.type, StructureMetaType) and e.name is None, -(e.type.size or 0)),
+        )
 
-        # Sort by largest field
-        fields = sorted(cls.__fields__, key=lambda e: e.type.size or 0, reverse=True)
-        anonymous_struct = False
+        size = len(cls)
+        result = 0
+        # The bits that have already been written by another field
+        written = 0
+        complete = (1 << (size * 8)) - 1
 
-        # Try to write by largest field
         for field in fields:
-            if isinstance(field.type, StructureMetaType) and field.name is None:
-                # Prefer to write regular fields initially
-                anonymous_struct = field.type
-                continue
+            is_anonymous = isinstance(field.type, StructureMetaType) and field.name is None
+            value = field.type.dumps(data if is_anonymous else getattr(data, field._name))
 
-            # Write the value
-            field.type._write(stream, getattr(data, field._name))
-            break
+            size = max(size, len(value))
 
-        # If we haven't written anything yet and we initially skipped an anonymous struct, write it now
-        if stream.tell() == offset and anonymous_struct:
-            anonymous_struct._write(stream, data)
+            # Smaller fields only contribute where the larger fields have padding
+            result |= int.from_bytes(value, "little") & ~written
+            written |= int.from_bytes(_data_mask(field.type), "little")
 
-        # If we haven't filled the union size yet, pad it
-        if remaining := expected_offset - stream.tell():
-            stream.write(b"\x00" * remaining)
+            if written == complete:
+                break
 
-        return stream.tell() - offset
+        # If we haven't filled the union size yet, this pads it
+        return stream.write(result.to_bytes(size, "little"))
 
 
 class Union(Structure, metaclass=UnionMetaType):
@@ -632,6 +633,16 @@ class UnionProxy:
         self.__union__._rebuild(self.__attr__)
 
 
+def _data_mask(type_: type[BaseType]) -> bytes:
+    """Return a byte string for a fixed-size type that has a one for every bit that is not padding."""
+    element_type = type_
+    while issubclass(element_type, BaseArray):
+        element_type = element_type.type
+
+    mask = b"\xff" * len(type_)
+    return type_.dumps(type_.reads(mask)) if issubclass(element_type, Structure) else mask
+
+
 def attrsetter(path: str) -> Callable[[Any], Any]:
     path, _, attr = path.rpartition(".")
     path = path.split(".")
-- 
2.43.0


From 6d66b4e510b033e14bfd2b70edc22e0ca1d4deeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:56:10 +0000
Subject: [PATCH 08/49] fix: a structure without fields has an alignment of one

---
 dissect/cstruct/types/structure.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 124d93a..e330b78 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -160,8 +160,8 @@ class StructureMetaType(MetaType):
         """
         # The current offset, set to None if we become dynamic
         offset = 0
-        # The current alignment for this structure
-        alignment = 0
+        # The current alignment for this structure, a structure without fields can be placed anywhere
+        alignment = 1
 
         # The current bit field type
         bits_type = None
@@ -440,7 +440,7 @@ class UnionMetaType(StructureMetaType):
 
     def _calculate_size_and_offsets(cls, fields: list[Field], align: bool = False) -> tuple[int | None, int]:
         size = 0
-        alignment = 0
+        alignment = 1
 
         for field in fields:
             if size is not None:
-- 
2.43.0


From bd6266a7a45987d846c867160904aa030d2237a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:15:13 +0000
Subject: [PATCH 09/49] fix: compiled reader of a single packed value followed
 by one byte-based value

---
 dissect/cstruct/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 74b1e53..5ec087c 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -358,7 +358,7 @@ class _ReadSourceGenerator:
             size += field_type.size
 
         fmt = _optimize_struct_fmt(info)
-        if fmt == "x" or (len(fmt) == 2 and fmt[1] == "x"):
+        if fmt == "x" or (len(fmt) == 2 and fmt[0].isdigit() and fmt[1] == "x"):
             unpack = ""
         else:
             unpack = f'data = _struct(cls.cs.endian, "{fmt}").unpack(buf)\n'
-- 
2.43.0


From 44cca029140e2969cdb50d931b9c2249fed4fc96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:04 +0000
Subject: [PATCH 10/49] fix: fall back to the interpreted reader for arrays of
 custom types

---
 dissect/cstruct/compiler.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 5ec087c..b479644 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -219,6 +219,9 @@ class _ReadSourceGenerator:
 
             # Everything else - basic and composite types (and arrays of them)
             else:
+                if issubclass(field_type, BaseArray) and not issubclass(field_type.type, SUPPORTED_TYPES):
+                    raise TypeError(f"Unsupported type for compiler: {field_type.type}")
+
                 if (
                     self.align
                     and field.offset is None
-- 
2.43.0


From e6db8e9bd024b418a8d6aa29a64b74c5adefbafd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:34 +0000
Subject: [PATCH 11/49] fix: an array with a negative constant length has no
 elements

---
 dissect/cstruct/cstruct.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dissect/cstruct/cstruct.py b/dissect/cstruct/cstruct.py
index e4e7f7b..9a0a272 100644
--- a/dissect/cstruct/cstruct.py
+++ b/dissect/cstruct/cstruct.py
@@ -348,6 +348,10 @@ class cstruct:
 
     def _make_array(self, type_: T, num_entries: int | Expression | None) -> type[Array[T]]:
         null_terminated = False
+        if isinstance(num_entries, int):
+            # A negative amount of entries is the same as no entries
+            num_entries = max(0, num_entries)
+
         if num_entries is None:
             null_terminated = True
             size = None
-- 
2.43.0


From 769948dce20e077c6409c0187e1b8e7a82b73e09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:19 +0000
Subject: [PATCH 12/49] fix: array lengths resolve earlier fields before
 constants of the same name

---
 dissect/cstruct/parser.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 6de850e..fe50eaf 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -207,7 +207,7 @@ class TokenParser(Parser):
                 tokens.consume()
                 break
 
-            field = self._parse_field(tokens)
+            field = self._parse_field(tokens, fields)
             fields.append(field)
 
         if register:
@@ -254,7 +254,7 @@ class TokenParser(Parser):
         d = ast.literal_eval(m.group(2))
         self.cstruct.lookups[m.group(1)] = {self.cstruct.consts[k]: v for k, v in d.items()}
 
-    def _parse_field(self, tokens: TokenConsumer) -> Field:
+    def _parse_field(self, tokens: TokenConsumer, fields: list[Field]) -> Field:
         type_ = None
         if tokens.next == self.TOK.IDENTIFIER:
             type_ = self.cstruct.resolve(self._identifier(tokens))
@@ -268,12 +268,14 @@ class TokenParser(Parser):
             raise ParserError(f"line {self._lineno(tokens.next)}: expected name")
         nametok = tokens.consume()
 
-        type_, name, bits = self._parse_field_type(type_, nametok.value)
+        type_, name, bits = self._parse_field_type(type_, nametok.value, fields)
 
         tokens.eol()
         return Field(name.strip(), type_, bits)
 
-    def _parse_field_type(self, type_: type[BaseType], name: str) -> tuple[type[BaseType], str, int | None]:
+    def _parse_field_type(
+        self, type_: type[BaseType], name: str, fields: list[Field] | None = None
+    ) -> tuple[type[BaseType], str, int | None]:
         pattern = self.TOK.patterns[self.TOK.NAME]
         # Dirty trick because the regex expects a ; but we don't want it to be part of the value
         d = pattern.match(name + ";").groupdict()
@@ -294,10 +296,12 @@ class TokenParser(Parser):
                     count = None
                 else:
                     count = Expression(self.cstruct, count)
-                    try:
-                        count = count.evaluate()
-                    except Exception:
-                        pass
+                    # Earlier fields of the structure take precedence over constants with the same name
+                    if not any(field.name in count.tokens for field in fields or []):
+                        try:
+                            count = count.evaluate()
+                        except Exception:
+                            pass
 
                 if issubclass(type_, BaseArray) and count is None:
                     raise ParserError("Depth required for multi-dimensional array")
-- 
2.43.0


From 26bc2da724aded19c34b4d0c0394d160969d403b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:35 +0000
Subject: [PATCH 13/49] fix: to-end-of-stream arrays take every whole element
 when bytes remain after the last one

---
 dissect/cstruct/types/base.py   | 9 +++++++--
 dissect/cstruct/types/packed.py | 6 ++++--
 dissect/cstruct/types/wchar.py  | 4 ++++
 3 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index 0c9e527..3cc7f8d 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 import functools
-from io import BytesIO
+from io import SEEK_END, BytesIO
 from typing import TYPE_CHECKING, Any, BinaryIO, Callable, ClassVar, TypeVar
 
 from dissect.cstruct.exceptions import ArraySizeError
@@ -146,7 +146,12 @@ class MetaType(type):
         if count == EOF:
             result = []
             while not _is_eof(stream):
-                result.append(cls._read(stream, context))
+                try:
+                    result.append(cls._read(stream, context))
+                except EOFError:
+                    # Only take whole elements, what remains is not enough for another one
+                    stream.seek(0, SEEK_END)
+                    break
             return result
 
         return [cls._read(stream, context) for _ in range(count)]
diff --git a/dissect/cstruct/types/packed.py b/dissect/cstruct/types/packed.py
index 76e7099..8069341 100644
--- a/dissect/cstruct/types/packed.py
+++ b/dissect/cstruct/types/packed.py
@@ -31,8 +31,10 @@ class Packed(BaseType, Generic[T]):
     def _read_array(cls, stream: BinaryIO, count: int, context: dict[str, Any] | None = None) -> list[Self]:
         if count == EOF:
             data = stream.read()
-            length = len(data)
-            count = length // cls.size
+            count = len(data) // cls.size
+            # Only take whole elements
+            length = cls.size * count
+            data = data[:length]
         else:
             length = cls.size * count
             data = stream.read(length)
diff --git a/dissect/cstruct/types/wchar.py b/dissect/cstruct/types/wchar.py
index 1cd8822..c706134 100644
--- a/dissect/cstruct/types/wchar.py
+++ b/dissect/cstruct/types/wchar.py
@@ -60,6 +60,10 @@ class Wchar(str, BaseType):
         if count != EOF and len(data) != count:
             raise EOFError(f"Read {len(data)} bytes, but expected {count}")
 
+        if len(data) % 2:
+            # Only take whole elements
+            data = data[:-1]
+
         return type.__call__(cls, data.decode(cls.__encoding_map__[cls.cs.endian]))
 
     @classmethod
-- 
2.43.0


From 00a2e80bab68318d336f8c24caeeb6ff9f410623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:14 +0000
Subject: [PATCH 14/49] fix: reading a union from a stream that delivers too
 few bytes raises EOFError

---
 dissect/cstruct/types/structure.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index e330b78..b8da8d0 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -497,7 +497,11 @@ class UnionMetaType(StructureMetaType):
         else:
             result = {}
             sizes = {}
-            buf = stream.read(cls.size)
+            size = cls.size
+            buf = stream.read(size)
+
+        if len(buf) != size:
+            raise EOFError(f"Read {len(buf)} bytes, but expected {size}")
 
         # Create the object and set the values
         # Using type.__call__ directly calls the __init__ method of the class
-- 
2.43.0


From 08365fc6e0a249df41033a76e72114f4fbc382c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:27 +0000
Subject: [PATCH 15/49] fix: a dynamic union extends to the end of its largest
 member, whatever its position in the stream

---
 dissect/cstruct/types/structure.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index b8da8d0..1c5cf9b 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -472,6 +472,7 @@ class UnionMetaType(StructureMetaType):
             offset = 0
             buf = io.BytesIO(stream.read(cls.size))
 
+        end = offset
         for field in cls.__fields__:
             field_type = cls.cs.resolve(field.type)
 
@@ -482,9 +483,13 @@ class UnionMetaType(StructureMetaType):
             buf.seek(offset + start)
             value = field_type._read(buf, result)
 
-            sizes[field._name] = buf.tell() - start
+            end = max(end, buf.tell())
+            sizes[field._name] = buf.tell() - (offset + start)
             result[field._name] = value
 
+        # Leave the stream after the largest field
+        buf.seek(end)
+
         return result, sizes
 
     def _read(cls, stream: BinaryIO, context: dict[str, Any] | None = None) -> Self:  # type: ignore
-- 
2.43.0


From 0a665a32ae2fcfa47ac0379a14603b64a8210c7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:30 +0000
Subject: [PATCH 16/49] fix: leave the stream after the last whole element of a
 to-end-of-stream array

---
 dissect/cstruct/types/base.py   | 5 +++--
 dissect/cstruct/types/packed.py | 7 +++++--
 dissect/cstruct/types/wchar.py  | 2 ++
 3 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index 3cc7f8d..8aae931 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -1,7 +1,7 @@
 from __future__ import annotations
 
 import functools
-from io import SEEK_END, BytesIO
+from io import BytesIO
 from typing import TYPE_CHECKING, Any, BinaryIO, Callable, ClassVar, TypeVar
 
 from dissect.cstruct.exceptions import ArraySizeError
@@ -146,11 +146,12 @@ class MetaType(type):
         if count == EOF:
             result = []
             while not _is_eof(stream):
+                pos = stream.tell()
                 try:
                     result.append(cls._read(stream, context))
                 except EOFError:
                     # Only take whole elements, what remains is not enough for another one
-                    stream.seek(0, SEEK_END)
+                    stream.seek(pos)
                     break
             return result
 
diff --git a/dissect/cstruct/types/packed.py b/dissect/cstruct/types/packed.py
index 8069341..44d5d6e 100644
--- a/dissect/cstruct/types/packed.py
+++ b/dissect/cstruct/types/packed.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 from functools import lru_cache
+from io import SEEK_CUR
 from struct import Struct
 from typing import TYPE_CHECKING, Any, BinaryIO, Generic, TypeVar
 
@@ -32,9 +33,11 @@ class Packed(BaseType, Generic[T]):
         if count == EOF:
             data = stream.read()
             count = len(data) // cls.size
-            # Only take whole elements
             length = cls.size * count
-            data = data[:length]
+            if (extra := len(data) - length) > 0:
+                # Only take whole elements
+                stream.seek(-extra, SEEK_CUR)
+                data = data[:length]
         else:
             length = cls.size * count
             data = stream.read(length)
diff --git a/dissect/cstruct/types/wchar.py b/dissect/cstruct/types/wchar.py
index c706134..052cce3 100644
--- a/dissect/cstruct/types/wchar.py
+++ b/dissect/cstruct/types/wchar.py
@@ -1,6 +1,7 @@
 from __future__ import annotations
 
 import sys
+from io import SEEK_CUR
 from typing import Any, BinaryIO, ClassVar
 
 from dissect.cstruct.types.base import EOF, BaseArray, BaseType
@@ -62,6 +63,7 @@ class Wchar(str, BaseType):
 
         if len(data) % 2:
             # Only take whole elements
+            stream.seek(-1, SEEK_CUR)
             data = data[:-1]
 
         return type.__call__(cls, data.decode(cls.__encoding_map__[cls.cs.endian]))
-- 
2.43.0


From 152254283c22ba05d582aa2b3aa6cc4bb1df670f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:03:48 +0000
Subject: [PATCH 17/49] fix: unary minus in an expression no longer collides
 with an identifier named u

---
 dissect/cstruct/expression.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/dissect/cstruct/expression.py b/dissect/cstruct/expression.py
index 6c48356..b701cec 100644
--- a/dissect/cstruct/expression.py
+++ b/dissect/cstruct/expression.py
@@ -167,7 +167,7 @@ class Expression:
     }
 
     unary_operators: ClassVar[dict[str, Callable[[int], int]]] = {
-        "u": lambda a: -a,
+        "-u": lambda a: -a,
         "~": lambda a: ~a,
     }
 
@@ -182,7 +182,7 @@ class Expression:
         "*": 5,
         "/": 5,
         "%": 5,
-        "u": 6,
+        "-u": 6,
         "~": 6,
         "sizeof": 6,
     }
@@ -236,10 +236,10 @@ class Expression:
         for i in range(len(self.tokens)):
             if self.tokens[i] == "-":
                 if i == 0:
-                    self.tokens[i] = "u"
+                    self.tokens[i] = "-u"
                     continue
-                if self.tokens[i - 1] in operators or self.tokens[i - 1] == "u" or self.tokens[i - 1] == "(":
-                    self.tokens[i] = "u"
+                if self.tokens[i - 1] in operators or self.tokens[i - 1] == "(":
+                    self.tokens[i] = "-u"
                     continue
 
         i = 0
-- 
2.43.0


From ee148549beb42d22de4d9cf8f27ef7c8eba3ede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:17 +0000
Subject: [PATCH 18/49] fix: sizeof in an expression accepts type names of more
 than one word

---
 dissect/cstruct/expression.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/expression.py b/dissect/cstruct/expression.py
index b701cec..eb3b16a 100644
--- a/dissect/cstruct/expression.py
+++ b/dissect/cstruct/expression.py
@@ -254,10 +254,14 @@ class Expression:
             elif current_token in self.unary_operators:
                 self.stack.append(current_token)
             elif current_token == "sizeof":
-                if len(tmp_expression) < i + 3 or (tmp_expression[i + 1] != "(" or tmp_expression[i + 3] != ")"):
+                # The name of a type can be more than one word, e.g. "unsigned int"
+                end = i + 3
+                while end < len(tmp_expression) and tmp_expression[end].isidentifier():
+                    end += 1
+                if len(tmp_expression) <= end or (tmp_expression[i + 1] != "(" or tmp_expression[end] != ")"):
                     raise ExpressionParserError("Invalid sizeof operation")
-                self.queue.append(len(self.cstruct.resolve(tmp_expression[i + 2])))
-                i += 3
+                self.queue.append(len(self.cstruct.resolve(" ".join(tmp_expression[i + 2 : end]))))
+                i = end
             elif current_token in operators:
                 while (
                     len(self.stack) != 0 and self.stack[-1] != "(" and (self.precedence(self.stack[-1], current_token))
-- 
2.43.0


From 6fab8b4d4ba6b5e663f5a775544e141935b5f443 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:04:39 +0000
Subject: [PATCH 19/49] fix: evaluating an expression keeps its state local,
 types are shared between threads

---
 dissect/cstruct/expression.py | 71 +++++++++++++++++------------------
 1 file changed, 34 insertions(+), 37 deletions(-)

diff --git a/dissect/cstruct/expression.py b/dissect/cstruct/expression.py
index eb3b16a..b02851b 100644
--- a/dissect/cstruct/expression.py
+++ b/dissect/cstruct/expression.py
@@ -191,8 +191,6 @@ class Expression:
         self.cstruct = cstruct
         self.expression = expression
         self.tokens = ExpressionTokenizer(expression).tokenize()
-        self.stack = []
-        self.queue = []
 
     def __repr__(self) -> str:
         return self.expression
@@ -200,24 +198,24 @@ class Expression:
     def precedence(self, o1: str, o2: str) -> bool:
         return self.precedence_levels[o1] >= self.precedence_levels[o2]
 
-    def evaluate_exp(self) -> None:
-        operator = self.stack.pop(-1)
+    def evaluate_exp(self, stack: list[str], queue: list[int]) -> None:
+        operator = stack.pop(-1)
         res = 0
 
-        if len(self.queue) < 1:
+        if len(queue) < 1:
             raise ExpressionParserError("Invalid expression: not enough operands")
 
-        right = self.queue.pop(-1)
+        right = queue.pop(-1)
         if operator in self.unary_operators:
             res = self.unary_operators[operator](right)
         else:
-            if len(self.queue) < 1:
+            if len(queue) < 1:
                 raise ExpressionParserError("Invalid expression: not enough operands")
 
-            left = self.queue.pop(-1)
+            left = queue.pop(-1)
             res = self.binary_operators[operator](left, right)
 
-        self.queue.append(res)
+        queue.append(res)
 
     def is_number(self, token: str) -> bool:
         return token.isnumeric() or (len(token) > 2 and token[0] == "0" and token[1] in ("x", "X", "b", "B", "o", "O"))
@@ -225,34 +223,35 @@ class Expression:
     def evaluate(self, context: dict[str, int] | None = None) -> int:
         """Evaluates an expression using a Shunting-Yard implementation."""
 
-        self.stack = []
-        self.queue = []
+        # Expressions are shared by all users of a type, so keep the state of an evaluation local
+        stack = []
+        queue = []
         operators = set(self.binary_operators.keys()) | set(self.unary_operators.keys())
 
         context = context or {}
-        tmp_expression = self.tokens
+        tmp_expression = list(self.tokens)
 
         # Unary minus tokens; we change the semantic of '-' depending on the previous token
-        for i in range(len(self.tokens)):
-            if self.tokens[i] == "-":
+        for i in range(len(tmp_expression)):
+            if tmp_expression[i] == "-":
                 if i == 0:
-                    self.tokens[i] = "-u"
+                    tmp_expression[i] = "-u"
                     continue
-                if self.tokens[i - 1] in operators or self.tokens[i - 1] == "(":
-                    self.tokens[i] = "-u"
+                if tmp_expression[i - 1] in operators or tmp_expression[i - 1] == "(":
+                    tmp_expression[i] = "-u"
                     continue
 
         i = 0
         while i < len(tmp_expression):
             current_token = tmp_expression[i]
             if self.is_number(current_token):
-                self.queue.append(int(current_token, 0))
+                queue.append(int(current_token, 0))
             elif current_token in context:
-                self.queue.append(int(context[current_token]))
+                queue.append(int(context[current_token]))
             elif current_token in self.cstruct.consts:
-                self.queue.append(int(self.cstruct.consts[current_token]))
+                queue.append(int(self.cstruct.consts[current_token]))
             elif current_token in self.unary_operators:
-                self.stack.append(current_token)
+                stack.append(current_token)
             elif current_token == "sizeof":
                 # The name of a type can be more than one word, e.g. "unsigned int"
                 end = i + 3
@@ -260,14 +259,12 @@ class Expression:
                     end += 1
                 if len(tmp_expression) <= end or (tmp_expression[i + 1] != "(" or tmp_expression[end] != ")"):
                     raise ExpressionParserError("Invalid sizeof operation")
-                self.queue.append(len(self.cstruct.resolve(" ".join(tmp_expression[i + 2 : end]))))
+                queue.append(len(self.cstruct.resolve(" ".join(tmp_expression[i + 2 : end]))))
                 i = end
             elif current_token in operators:
-                while (
-                    len(self.stack) != 0 and self.stack[-1] != "(" and (self.precedence(self.stack[-1], current_token))
-                ):
-                    self.evaluate_exp()
-                self.stack.append(current_token)
+                while len(stack) != 0 and stack[-1] != "(" and (self.precedence(stack[-1], current_token)):
+                    self.evaluate_exp(stack, queue)
+                stack.append(current_token)
             elif current_token == "(":
                 if i > 0:
                     previous_token = tmp_expression[i - 1]
@@ -276,7 +273,7 @@ class Expression:
                             f"Parser expected sizeof or an arethmethic operator instead got: '{previous_token}'"
                         )
 
-                self.stack.append(current_token)
+                stack.append(current_token)
             elif current_token == ")":
                 if i > 0:
                     previous_token = tmp_expression[i - 1]
@@ -285,24 +282,24 @@ class Expression:
                             f"Parser expected an expression, instead received empty parenthesis. Index: {i}"
                         )
 
-                if len(self.stack) == 0:
+                if len(stack) == 0:
                     raise ExpressionParserError("Invalid expression")
 
-                while self.stack[-1] != "(":
-                    self.evaluate_exp()
+                while stack[-1] != "(":
+                    self.evaluate_exp(stack, queue)
 
-                self.stack.pop(-1)
+                stack.pop(-1)
             else:
                 raise ExpressionParserError(f"Unmatched token: '{current_token}'")
             i += 1
 
-        while len(self.stack) != 0:
-            if self.stack[-1] == "(":
+        while len(stack) != 0:
+            if stack[-1] == "(":
                 raise ExpressionParserError("Invalid expression")
 
-            self.evaluate_exp()
+            self.evaluate_exp(stack, queue)
 
-        if len(self.queue) != 1:
+        if len(queue) != 1:
             raise ExpressionParserError("Invalid expression")
 
-        return self.queue[0]
+        return queue[0]
-- 
2.43.0


From 613635468546fe15a0217f8dc490d0f0209638a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 20/49] fix: a union keeps its values when a value that can't
 be written is assigned to a member

---
 dissect/cstruct/types/structure.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 1c5cf9b..1673198 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -586,13 +586,16 @@ class Union(Structure, metaclass=UnionMetaType):
         if (value := getattr(self, attr)) is None:
             value = field.type.__default__()
 
-        field.type._write(buf, value)
-
-        object.__setattr__(self, "_buf", buf.getvalue())
-        self._update()
+        try:
+            field.type._write(buf, value)
+            cur_buf = buf.getvalue()
+        finally:
+            # If the value can't be written, all the values are those of the bytes we still have
+            object.__setattr__(self, "_buf", cur_buf)
+            self._update()
 
-        # (Re-)proxify all values
-        self._proxify()
+            # (Re-)proxify all values
+            self._proxify()
 
     def _update(self) -> None:
         result, sizes = self.__class__._read_fields(io.BytesIO(self._buf))
-- 
2.43.0


From 452aec1021f23bc4426f4db1b14481bd8cfee31c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 21/49] fix: structures nested in a union compare, hash and
 test true like the structures they are

---
 dissect/cstruct/types/structure.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 1673198..ad169f9 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -625,12 +625,25 @@ class UnionProxy:
         object.__setattr__(self, "__attr__", attr)
         object.__setattr__(self, "__target__", target)
 
+    @property
+    def __class__(self) -> type[Structure]:
+        return self.__target__.__class__
+
     def __len__(self) -> int:
         return len(self.__target__.dumps())
 
     def __bytes__(self) -> bytes:
         return self.__target__.dumps()
 
+    def __bool__(self) -> bool:
+        return bool(self.__target__)
+
+    def __eq__(self, other: object) -> bool:
+        return self.__target__ == other
+
+    def __hash__(self) -> int:
+        return hash(self.__target__)
+
     def __getitem__(self, item: str) -> Any:
         return getattr(self.__target__, item)
 
-- 
2.43.0


From fa97077e210a612ac5333c256b6be0594b7127d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:44 +0000
Subject: [PATCH 22/49] fix: assigning through nested structures always updates
 the union they are in

---
 dissect/cstruct/types/structure.py | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index ad169f9..8135122 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -572,6 +572,9 @@ class Union(Structure, metaclass=UnionMetaType):
             raise NotImplementedError("Modifying a dynamic union is not yet supported")
 
         super().__setattr__(attr, value)
+        if attr in self.__class__.fields and attr not in self.__class__.lookup:
+            # A field of an anonymous structure, assigning through its proxy already rebuilt the union
+            return
         self._rebuild(attr)
 
     def _rebuild(self, attr: str) -> None:
@@ -604,13 +607,27 @@ class Union(Structure, metaclass=UnionMetaType):
         object.__setattr__(self, "_sizes", sizes)
 
     def _proxify(self) -> None:
-        def _proxy_structure(value: Structure) -> None:
+        # Proxies remain valid when the values are updated
+        proxies = self.__dict__.setdefault("_proxies", {})
+
+        def _proxy_structure(value: Structure, path: tuple[str, ...] = ()) -> None:
             for field in value.__class__.__fields__:
-                if issubclass(field.type, Structure):
-                    nested_value = getattr(value, field._name)
-                    proxy = UnionProxy(self, field._name, nested_value)
-                    object.__setattr__(value, field._name, proxy)
-                    _proxy_structure(nested_value)
+                if not issubclass(field.type, Structure):
+                    continue
+
+                nested_path = (*path, field._name)
+                nested_value = getattr(value, field._name)
+                if (proxy := proxies.get(nested_path)) is None:
+                    # A change anywhere in a nested structure changes the bytes of the member of this union it is in
+                    proxy = proxies[nested_path] = UnionProxy(self, nested_path[0], nested_value)
+                elif nested_value is not proxy:
+                    object.__setattr__(proxy, "__target__", nested_value)
+                object.__setattr__(value, field._name, proxy)
+
+                # Values nested in another union have already been proxified by that union
+                while type(nested_value) is UnionProxy:
+                    nested_value = nested_value.__target__
+                _proxy_structure(nested_value, nested_path)
 
         _proxy_structure(self)
 
-- 
2.43.0


From 7a79d2510fd192df10c93587e9f56d9f476e1440 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:00 +0000
Subject: [PATCH 23/49] fix: default values that can be changed are no longer
 shared between instances

---
 dissect/cstruct/types/base.py      |  2 +-
 dissect/cstruct/types/structure.py | 38 ++++++++++++++++++++++++++----
 2 files changed, 35 insertions(+), 5 deletions(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index 8aae931..c3b2769 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -250,7 +250,7 @@ class BaseArray(BaseType):
     @classmethod
     def __default__(cls) -> BaseType:
         return type.__call__(
-            cls, [cls.type.__default__()] * (cls.num_entries if isinstance(cls.num_entries, int) else 0)
+            cls, [cls.type.__default__() for _ in range(cls.num_entries if isinstance(cls.num_entries, int) else 0)]
         )
 
     @classmethod
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 8135122..c0cf224 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -740,16 +740,37 @@ def _make_structure__init__(fields: list[str]) -> str:
     return code + (field_init or " pass")
 
 
+@_codegen
+def _make_structure_mutable__init__(fields: list[str]) -> str:
+    """Generates an ``__init__`` method for a structure that creates its default values every time it's called.
+
+    The constants should be patched with the types of the fields.
+
+    Args:
+        fields: List of field names.
+    """
+    field_args = ", ".join(f"{field} = None" for field in fields)
+    field_init = "\n".join(
+        f" self.{name} = {name} if {name} is not None else ({i}).__default__()" for i, name in enumerate(fields)
+    )
+
+    code = f"def __init__(self{', ' + field_args or ''}):\n"
+    return code + (field_init or " pass")
+
+
 @_codegen
 def _make_union__init__(fields: list[str]) -> str:
     """Generates an ``__init__`` method for a class with the specified fields using setattr.
 
+    The constants should be patched with the types of the fields.
+
     Args:
         fields: List of field names.
     """
     field_args = ", ".join(f"{field} = None" for field in fields)
     field_init = "\n".join(
-        f" object.__setattr__(self, '{name}', {name} if {name} is not None else {i})" for i, name in enumerate(fields)
+        f" object.__setattr__(self, '{name}', {name} if {name} is not None else ({i}).__default__())"
+        for i, name in enumerate(fields)
     )
 
     code = f"def __init__(self{', ' + field_args or ''}):\n"
@@ -839,10 +860,19 @@ def _generate_structure__init__(fields: list[Field]) -> FunctionType:
     field_names = [field._name for field in fields]
 
     template: FunctionType = _make_structure__init__(len(field_names))
+    consts = [field.type.__default__() for field in fields]
+    names = field_names
+
+    if any(isinstance(value, (list, Structure)) for value in consts):
+        # These values can be changed, so they can't be shared by all instances
+        template = _make_structure_mutable__init__(len(field_names))
+        consts = [field.type for field in fields]
+        names = ["__default__", *field_names]
+
     return type(template)(
         template.__code__.replace(
-            co_consts=(None, *[field.type.__default__() for field in fields]),
-            co_names=(*field_names,),
+            co_consts=(None, *consts),
+            co_names=(*names,),
             co_varnames=("self", *field_names),
         ),
         template.__globals__,
@@ -863,7 +893,7 @@ def _generate_union__init__(fields: list[Field]) -> FunctionType:
         template.__code__.replace(
             co_consts=(
                 None,
-                *sum([(field._name, field.type.__default__()) for field in fields], ()),
+                *sum([(field._name, field.type) for field in fields], ()),
             ),
             co_varnames=("self", *field_names),
         ),
-- 
2.43.0


From d6ea2a5b7f5703805966949e47c2500914a0af42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:58 +0000
Subject: [PATCH 24/49] fix: signed flags keep negative values instead of
 making them positive

---
 dissect/cstruct/types/flag.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/dissect/cstruct/types/flag.py b/dissect/cstruct/types/flag.py
index 6740591..556896d 100644
--- a/dissect/cstruct/types/flag.py
+++ b/dissect/cstruct/types/flag.py
@@ -1,9 +1,14 @@
 from __future__ import annotations
 
 from enum import IntFlag
+from typing import TYPE_CHECKING
 
 from dissect.cstruct.types.base import BaseType
 from dissect.cstruct.types.enum import PY_311, EnumMetaType
+from dissect.cstruct.types.packed import Packed
+
+if TYPE_CHECKING:
+    from typing_extensions import Self
 
 
 class Flag(BaseType, IntFlag, metaclass=EnumMetaType):
@@ -70,3 +75,15 @@ class Flag(BaseType, IntFlag, metaclass=EnumMetaType):
 
     def __hash__(self) -> int:
         return hash((self.__class__, self.name, self.value))
+
+    @classmethod
+    def _missing_(cls, value: int) -> Self:
+        signed = cls.type.packchar.islower() if issubclass(cls.type, Packed) else cls.type.signed
+        if signed and value < 0:
+            # IntFlag would only keep the bits of the members, and make the value positive
+            new_member = int.__new__(cls, value)
+            new_member._name_ = None
+            new_member._value_ = value
+            return new_member
+
+        return super()._missing_(value)
-- 
2.43.0


From 41f109db91e56d8ea574eacf70e11e473a0a9707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:37:00 +0000
Subject: [PATCH 25/49] fix: an enum member is never equal to a flag member

---
 dissect/cstruct/types/enum.py | 2 +-
 dissect/cstruct/types/flag.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/types/enum.py b/dissect/cstruct/types/enum.py
index 5b83056..aadc4fa 100644
--- a/dissect/cstruct/types/enum.py
+++ b/dissect/cstruct/types/enum.py
@@ -183,7 +183,7 @@ class Enum(BaseType, IntEnum, metaclass=EnumMetaType):
             return f"{base}{value}"
 
     def __eq__(self, other: int | Enum) -> bool:
-        if isinstance(other, Enum) and other.__class__ is not self.__class__:
+        if isinstance(other.__class__, EnumMetaType) and other.__class__ is not self.__class__:
             return False
 
         # Python <= 3.10 compatibility
diff --git a/dissect/cstruct/types/flag.py b/dissect/cstruct/types/flag.py
index 556896d..1ff33ea 100644
--- a/dissect/cstruct/types/flag.py
+++ b/dissect/cstruct/types/flag.py
@@ -61,7 +61,7 @@ class Flag(BaseType, IntFlag, metaclass=EnumMetaType):
             return result
 
     def __eq__(self, other: int | Flag) -> bool:
-        if isinstance(other, Flag) and other.__class__ is not self.__class__:
+        if isinstance(other.__class__, EnumMetaType) and other.__class__ is not self.__class__:
             return False
 
         # Python <= 3.10 compatibility
-- 
2.43.0


From 1d71635e018822bf9cb5b4f7093a8b66752540a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:45 +0000
Subject: [PATCH 26/49] fix: a comment separates tokens, and ends at CRLF line
 ends too

---
 dissect/cstruct/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index fe50eaf..b31923a 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -331,7 +331,7 @@ class TokenParser(Parser):
     @staticmethod
     def _remove_comments(string: str) -> str:
         # https://stackoverflow.com/a/18381470
-        pattern = r"(\".*?\"|\'.*?\')|(/\*.*?\*/|//[^\r\n]*$)"
+        pattern = r"(\".*?\"|\'.*?\')|(/\*.*?\*/|//[^\r\n]*)"
         # first group captures quoted strings (double or single)
         # second group captures comments (//single-line or /* multi-line */)
         regex = re.compile(pattern, re.MULTILINE | re.DOTALL)
@@ -340,7 +340,8 @@ class TokenParser(Parser):
             # if the 2nd group (capturing comments) is not None,
             # it means we have captured a non-quoted (real) comment string.
             if comment := match.group(2):
-                return "\n" * comment.count("\n")  # so we will return empty to remove the comment
+                # so we will remove the comment, it still separates what is before it from what is after it
+                return "\n" * comment.count("\n") or " "
             # otherwise, we will return the 1st group
             return match.group(1)  # captured quoted-string
 
-- 
2.43.0


From df0712c3ddeab13d0b35f09b16e599e63478c2a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:31 +0000
Subject: [PATCH 27/49] fix: whitespace between the tokens of a field does not
 change its type

---
 dissect/cstruct/parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index b31923a..99687dd 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -63,7 +63,10 @@ class TokenParser(Parser):
             "ENUM",
         )
         TOK.add(r"(?<=})\s*(?P<defs>(?:[a-zA-Z0-9_]+\s*,\s*)+[a-zA-Z0-9_]+)\s*(?=;)", "DEFS")
-        TOK.add(r"(?P<name>\**?\s*[a-zA-Z0-9_]+)(?:\s*:\s*(?P<bits>\d+))?(?:\[(?P<count>[^;\n]*)\])?\s*(?=;)", "NAME")
+        TOK.add(
+            r"(?P<name>(?:\*\s*)*[a-zA-Z0-9_]+)(?:\s*:\s*(?P<bits>\d+))?(?:\s*\[(?P<count>[^;]*)\])?\s*(?=;)",
+            "NAME",
+        )
         TOK.add(r"[a-zA-Z_][a-zA-Z0-9_]*", "IDENTIFIER")
         TOK.add(r"[{}]", "BLOCK")
         TOK.add(r"\$(?P<name>[^\s]+) = (?P<value>{[^}]+})\w*[\r\n]+", "LOOKUP")
@@ -284,14 +287,15 @@ class TokenParser(Parser):
         count_expression = d["count"]
 
         while name.startswith("*"):
-            name = name[1:]
+            name = name[1:].lstrip()
             type_ = self.cstruct._make_pointer(type_)
 
         if count_expression is not None:
             # Poor mans multi-dimensional array by abusing the eager regex match of count
-            counts = count_expression.split("][") if "][" in count_expression else [count_expression]
+            counts = re.split(r"\]\s*\[", count_expression)
 
             for count in reversed(counts):
+                count = " ".join(count.split())
                 if count == "":
                     count = None
                 else:
-- 
2.43.0


From e6f3fd3a3a651f64547e9cf9dd5be345cc3d2848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:28 +0000
Subject: [PATCH 28/49] fix: whitespace and line ends inside an enum do not
 change its members or type

---
 dissect/cstruct/parser.py | 41 +++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 21 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 99687dd..e22838b 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -58,8 +58,8 @@ class TokenParser(Parser):
         TOK.add(r"typedef(?=\s)", "TYPEDEF")
         TOK.add(r"(?:struct|union)(?=\s|{)", "STRUCT")
         TOK.add(
-            r"(?P<enumtype>enum|flag)\s+(?P<name>[^\s:{]+)?\s*(:\s"
-            r"*(?P<type>[^{]+?)\s*)?\{(?P<values>[^}]+)\}\s*(?=;)",
+            r"(?P<enumtype>enum|flag)(?=[\s:{])\s*(?P<name>[^\s:;{]+)?\s*(:\s"
+            r"*(?P<type>[^;{]+?)\s*)?\{(?P<values>[^}]+)\}\s*(?=;)",
             "ENUM",
         )
         TOK.add(r"(?<=})\s*(?P<defs>(?:[a-zA-Z0-9_]+\s*,\s*)+[a-zA-Z0-9_]+)\s*(?=;)", "DEFS")
@@ -115,30 +115,29 @@ class TokenParser(Parser):
             nextval = 1
 
         values = {}
-        for line in d["values"].splitlines():
-            for v in line.split(","):
-                key, _, val = v.partition("=")
-                key = key.strip()
-                val = val.strip()
-                if not key:
-                    continue
-
-                val = nextval if not val else Expression(self.cstruct, val).evaluate(values)
-
-                if enumtype == "flag":
-                    high_bit = val.bit_length() - 1
-                    nextval = 2 ** (high_bit + 1)
-                else:
-                    nextval = val + 1
+        # A line end can take the place of a comma, but not in the middle of a member
+        for v in re.split(r",|(?<=[a-zA-Z0-9_)])\s*[\r\n]\s*(?=[a-zA-Z_])", d["values"]):
+            key, _, val = v.partition("=")
+            key = key.strip()
+            val = " ".join(val.split())
+            if not key:
+                continue
+
+            val = nextval if not val else Expression(self.cstruct, val).evaluate(values)
+
+            if enumtype == "flag":
+                high_bit = val.bit_length() - 1
+                nextval = 2 ** (high_bit + 1)
+            else:
+                nextval = val + 1
 
-                values[key] = val
+            values[key] = val
 
-        if not d["type"]:
-            d["type"] = "uint32"
+        type_ = " ".join((d["type"] or "uint32").split())
 
         factory = self.cstruct._make_flag if enumtype == "flag" else self.cstruct._make_enum
 
-        enum = factory(d["name"] or "", self.cstruct.resolve(d["type"]), values)
+        enum = factory(d["name"] or "", self.cstruct.resolve(type_), values)
         if not enum.__name__:
             self.cstruct.consts.update(enum.__members__)
         else:
-- 
2.43.0


From 539a9d323fba13d6134482de458318ecd329167c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:59 +0000
Subject: [PATCH 29/49] fix: whitespace in lookups, configuration flags and
 after the value of a constant

---
 dissect/cstruct/parser.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index e22838b..50afabe 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -69,7 +69,7 @@ class TokenParser(Parser):
         )
         TOK.add(r"[a-zA-Z_][a-zA-Z0-9_]*", "IDENTIFIER")
         TOK.add(r"[{}]", "BLOCK")
-        TOK.add(r"\$(?P<name>[^\s]+) = (?P<value>{[^}]+})\w*[\r\n]+", "LOOKUP")
+        TOK.add(r"\$(?P<name>[^\s=]+)\s*=\s*(?P<value>{[^}]+})\s*", "LOOKUP")
         TOK.add(r";", "EOL")
         TOK.add(r"\s+", None)
         TOK.add(r".", None)
@@ -87,7 +87,7 @@ class TokenParser(Parser):
         pattern = self.TOK.patterns[self.TOK.DEFINE]
         match = pattern.match(const.value).groupdict()
 
-        value = match["value"]
+        value = match["value"].strip()
         try:
             value = ast.literal_eval(value)
         except (ValueError, SyntaxError):
@@ -361,7 +361,7 @@ class TokenParser(Parser):
         flag_token = tokens.consume()
         pattern = self.TOK.patterns[self.TOK.CONFIG_FLAG]
         tok_dict = pattern.match(flag_token.value).groupdict()
-        tokens.flags.extend(tok_dict["values"].split(","))
+        tokens.flags.extend(flag.strip() for flag in tok_dict["values"].split(","))
 
     def parse(self, data: str) -> None:
         scanner = re.Scanner(self.TOK.tokens)
-- 
2.43.0


From 811011ec80806a061f37d9d6f57ac8d2bbb7f650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:22 +0000
Subject: [PATCH 30/49] fix: restore the stream position if the target of a
 pointer can't be parsed

---
 dissect/cstruct/types/pointer.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/dissect/cstruct/types/pointer.py b/dissect/cstruct/types/pointer.py
index 289e400..d4c5328 100644
--- a/dissect/cstruct/types/pointer.py
+++ b/dissect/cstruct/types/pointer.py
@@ -89,16 +89,17 @@ class Pointer(int, BaseType, Generic[T]):
         if self._value is None and not issubclass(self.type, Void):
             # Read current position of file read/write pointer
             position = self._stream.tell()
-            # Reposition the file read/write pointer
-            self._stream.seek(self)
-
-            if issubclass(self.type, Char):
-                # this makes the assumption that a char pointer is a null-terminated string
-                value = self.type._read_0(self._stream, self._context)
-            else:
-                value = self.type._read(self._stream, self._context)
-
-            self._stream.seek(position)
+            try:
+                # Reposition the file read/write pointer
+                self._stream.seek(self)
+
+                if issubclass(self.type, Char):
+                    # this makes the assumption that a char pointer is a null-terminated string
+                    value = self.type._read_0(self._stream, self._context)
+                else:
+                    value = self.type._read(self._stream, self._context)
+            finally:
+                self._stream.seek(position)
             self._value = value
 
         return self._value
-- 
2.43.0


From 1379b08ca511558d797acf26469b1f65621fd2ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:26:49 +0000
Subject: [PATCH 31/49] fix: pointers in a union refer to the stream the union
 was read from

---
 dissect/cstruct/types/pointer.py   | 11 ++++++++++-
 dissect/cstruct/types/structure.py |  8 +++++---
 2 files changed, 15 insertions(+), 4 deletions(-)

diff --git a/dissect/cstruct/types/pointer.py b/dissect/cstruct/types/pointer.py
index d4c5328..24b70b4 100644
--- a/dissect/cstruct/types/pointer.py
+++ b/dissect/cstruct/types/pointer.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+from io import BytesIO
 from typing import TYPE_CHECKING, Any, BinaryIO, Generic, TypeVar
 
 from dissect.cstruct.exceptions import NullPointerDereference
@@ -13,6 +14,14 @@ if TYPE_CHECKING:
 T = TypeVar("T", bound=BaseType)
 
 
+class UnionBuffer(BytesIO):
+    """The bytes of a union, pointers read from it refer to the stream that the union itself was read from."""
+
+    def __init__(self, buf: bytes, stream: BinaryIO | None):
+        super().__init__(buf)
+        self.stream = stream.stream if isinstance(stream, UnionBuffer) else stream
+
+
 class Pointer(int, BaseType, Generic[T]):
     """Pointer to some other type."""
 
@@ -23,7 +32,7 @@ class Pointer(int, BaseType, Generic[T]):
 
     def __new__(cls, value: int, stream: BinaryIO | None, context: dict[str, Any] | None = None) -> Self:
         obj = super().__new__(cls, value)
-        obj._stream = stream
+        obj._stream = stream.stream if isinstance(stream, UnionBuffer) else stream
         obj._context = context
         obj._value = None
         return obj
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index c0cf224..0b03597 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -19,7 +19,7 @@ from dissect.cstruct.types.base import (
     _is_readable_type,
 )
 from dissect.cstruct.types.enum import EnumMetaType
-from dissect.cstruct.types.pointer import Pointer
+from dissect.cstruct.types.pointer import Pointer, UnionBuffer
 
 if TYPE_CHECKING:
     from collections.abc import Iterator
@@ -470,7 +470,7 @@ class UnionMetaType(StructureMetaType):
             buf = stream
         else:
             offset = 0
-            buf = io.BytesIO(stream.read(cls.size))
+            buf = UnionBuffer(stream.read(cls.size), stream)
 
         end = offset
         for field in cls.__fields__:
@@ -517,6 +517,7 @@ class UnionMetaType(StructureMetaType):
         object.__setattr__(obj, "_values", result)
         object.__setattr__(obj, "_sizes", sizes)
         object.__setattr__(obj, "_buf", buf)
+        object.__setattr__(obj, "_stream", stream)
 
         if cls.size is not None:
             obj._update()
@@ -563,6 +564,7 @@ class Union(Structure, metaclass=UnionMetaType):
     """Base class for cstruct union type classes."""
 
     _buf: bytes
+    _stream: BinaryIO | None = None
 
     def __eq__(self, other: object) -> bool:
         return self.__class__ is other.__class__ and bytes(self) == bytes(other)
@@ -601,7 +603,7 @@ class Union(Structure, metaclass=UnionMetaType):
             self._proxify()
 
     def _update(self) -> None:
-        result, sizes = self.__class__._read_fields(io.BytesIO(self._buf))
+        result, sizes = self.__class__._read_fields(UnionBuffer(self._buf, self._stream))
         self.__dict__.update(result)
         object.__setattr__(self, "_values", result)
         object.__setattr__(self, "_sizes", sizes)
-- 
2.43.0


From c1c20461d264e9abdec7d3ce4fe3dd7f09fdd60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:52 +0000
Subject: [PATCH 32/49] fix: structures with a field called self or cls can be
 created

---
 dissect/cstruct/types/base.py      | 2 +-
 dissect/cstruct/types/structure.py | 6 ++++--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index c3b2769..0fb9716 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -32,7 +32,7 @@ class MetaType(type):
     ArrayType: type[BaseArray] = "Array"
     """The array type for this type class."""
 
-    def __call__(cls, *args, **kwargs) -> Self:  # type: ignore
+    def __call__(cls, /, *args, **kwargs) -> Self:  # type: ignore
         """Adds support for ``TypeClass(bytes | file-like object)`` parsing syntax."""
         # TODO: add support for Type(cs) API to create new bounded type classes, similar to the old API?
         if len(args) == 1 and not isinstance(args[0], cls):
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 0b03597..9eb0b07 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -68,7 +68,7 @@ class StructureMetaType(MetaType):
 
         return super().__new__(metacls, name, bases, classdict)
 
-    def __call__(cls, *args, **kwargs) -> Self:  # type: ignore
+    def __call__(cls, /, *args, **kwargs) -> Self:  # type: ignore
         if (
             cls.__fields__
             and len(args) == len(cls.__fields__) == 1
@@ -414,7 +414,7 @@ class Structure(BaseType, metaclass=StructureMetaType):
 class UnionMetaType(StructureMetaType):
     """Base metaclass for cstruct union type classes."""
 
-    def __call__(cls, *args, **kwargs) -> Self:  # type: ignore
+    def __call__(cls, /, *args, **kwargs) -> Self:  # type: ignore
         obj: Union = super().__call__(*args, **kwargs)
 
         # Calling with non-stream args or kwargs means we are initializing with values
@@ -876,6 +876,7 @@ def _generate_structure__init__(fields: list[Field]) -> FunctionType:
             co_consts=(None, *consts),
             co_names=(*names,),
             co_varnames=("self", *field_names),
+            co_posonlyargcount=1,  # A field can be called self too
         ),
         template.__globals__,
         argdefs=template.__defaults__,
@@ -898,6 +899,7 @@ def _generate_union__init__(fields: list[Field]) -> FunctionType:
                 *sum([(field._name, field.type) for field in fields], ()),
             ),
             co_varnames=("self", *field_names),
+            co_posonlyargcount=1,  # A field can be called self too
         ),
         template.__globals__,
         argdefs=template.__defaults__,
-- 
2.43.0


From 44ae37d12246c81a3fb96885c102fca4daa915cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:27 +0000
Subject: [PATCH 33/49] fix: unions are compared by their fields, dynamic
 unions too

---
 dissect/cstruct/types/structure.py | 7 +------
 1 file changed, 1 insertion(+), 6 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 9eb0b07..4ff2d80 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -117,12 +117,10 @@ class StructureMetaType(MetaType):
 
         if issubclass(cls, UnionMetaType) or isinstance(cls, UnionMetaType):
             classdict["__init__"] = _generate_union__init__(raw_lookup.values())
-            # Not a great way to do this but it works for now
-            classdict["__eq__"] = Union.__eq__
         else:
             classdict["__init__"] = _generate_structure__init__(raw_lookup.values())
-            classdict["__eq__"] = _generate__eq__(field_names)
 
+        classdict["__eq__"] = _generate__eq__(field_names)
         classdict["__hash__"] = _generate__hash__(field_names)
 
         # If we're calling this as a class method or a function on the metaclass
@@ -566,9 +564,6 @@ class Union(Structure, metaclass=UnionMetaType):
     _buf: bytes
     _stream: BinaryIO | None = None
 
-    def __eq__(self, other: object) -> bool:
-        return self.__class__ is other.__class__ and bytes(self) == bytes(other)
-
     def __setattr__(self, attr: str, value: Any) -> None:
         if self.__class__.dynamic:
             raise NotImplementedError("Modifying a dynamic union is not yet supported")
-- 
2.43.0


From 711f14f8f8b8abe6fca2cdf82ad800e5c4a31e05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:20 +0000
Subject: [PATCH 34/49] fix: padding of a member does not overwrite the other
 members of a union

---
 dissect/cstruct/types/structure.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 4ff2d80..61b1feb 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -588,7 +588,17 @@ class Union(Structure, metaclass=UnionMetaType):
 
         try:
             field.type._write(buf, value)
-            cur_buf = buf.getvalue()
+            new_buf = buf.getvalue()
+
+            # Padding in the field doesn't change the other fields
+            if isinstance(field.type, StructureMetaType):
+                offset = field.offset or 0
+                mask = int.from_bytes(_data_mask(field.type), "little") << (offset * 8)
+                new_value = int.from_bytes(new_buf, "little") & mask
+                old_value = int.from_bytes(cur_buf, "little") & ~mask
+                new_buf = (old_value | new_value).to_bytes(len(new_buf), "little")
+
+            cur_buf = new_buf
         finally:
             # If the value can't be written, all the values are those of the bytes we still have
             object.__setattr__(self, "_buf", cur_buf)
@@ -678,8 +688,13 @@ def _data_mask(type_: type[BaseType]) -> bytes:
     while issubclass(element_type, BaseArray):
         element_type = element_type.type
 
-    mask = b"\xff" * len(type_)
-    return type_.dumps(type_.reads(mask)) if issubclass(element_type, Structure) else mask
+    size = len(type_)
+    if not issubclass(element_type, Structure):
+        return b"\xff" * size
+
+    # Two complementary patterns, because neither of these is a NaN, of which the bits can change
+    even, odd = (type_.dumps(type_.reads(pattern * size)) for pattern in (b"\x55", b"\xaa"))
+    return bytes(a | b for a, b in zip(even, odd))
 
 
 def attrsetter(path: str) -> Callable[[Any], Any]:
-- 
2.43.0


From 1f1bbdf9dc8cc8fce6b395a09ea57a8bbe393e1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:50:23 +0000
Subject: [PATCH 35/49] fix: structures can be constructed from a pointer, and
 from bytes and keywords

---
 dissect/cstruct/types/base.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index 0fb9716..2b5c025 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -35,7 +35,7 @@ class MetaType(type):
     def __call__(cls, /, *args, **kwargs) -> Self:  # type: ignore
         """Adds support for ``TypeClass(bytes | file-like object)`` parsing syntax."""
         # TODO: add support for Type(cs) API to create new bounded type classes, similar to the old API?
-        if len(args) == 1 and not isinstance(args[0], cls):
+        if len(args) == 1 and not kwargs and not isinstance(args[0], cls):
             stream = args[0]
 
             if _is_readable_type(stream):
@@ -290,7 +290,8 @@ class Array(list[T], BaseArray):
 
 
 def _is_readable_type(value: object) -> bool:
-    return hasattr(value, "read")
+    # Pointers are values, looking for an attribute would dereference them
+    return not isinstance(value, int) and hasattr(value, "read")
 
 
 def _is_buffer_type(value: object) -> bool:
-- 
2.43.0


From f9e11903da15632f04d4a6118f0a94338acc3b85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:51 +0000
Subject: [PATCH 36/49] fix: negative integers can be packed without a size

The size was taken from the magnitude only, so -129 was packed in one byte,
which raised an OverflowError.
---
 dissect/cstruct/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/utils.py b/dissect/cstruct/utils.py
index 0345598..ddb8da9 100644
--- a/dissect/cstruct/utils.py
+++ b/dissect/cstruct/utils.py
@@ -224,7 +224,10 @@ def pack(value: int, size: int | None = None, endian: str = "little") -> bytes:
         size: Integer size in bits.
         endian: Endianness to use (little, big, network, <, > or !)
     """
-    size = ((size or value.bit_length()) + 7) // 8
+    if not size:
+        # Negative values need an additional bit for their sign
+        size = value.bit_length() if value >= 0 else (~value).bit_length() + 1
+    size = (size + 7) // 8
     return value.to_bytes(size, ENDIANNESS_MAP.get(endian, endian), signed=value < 0)
 
 
-- 
2.43.0


From c2ccad710600acce51c7c2a9bc5e9a27922a2aef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:52 +0000
Subject: [PATCH 37/49] fix: unpack accepts what pack produces for sizes that
 are not a multiple of 8

pack() rounds the size up to whole bytes, unpack() rounded it down, so they
were not each other's inverse and swap() failed for such a size.
---
 dissect/cstruct/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/utils.py b/dissect/cstruct/utils.py
index ddb8da9..03ca0e6 100644
--- a/dissect/cstruct/utils.py
+++ b/dissect/cstruct/utils.py
@@ -240,8 +240,8 @@ def unpack(value: bytes, size: int | None = None, endian: str = "little", sign:
         endian: Endianness to use (little, big, network, <, > or !)
         sign: Signedness of the integer.
     """
-    if size and len(value) != size // 8:
-        raise ValueError(f"Invalid byte value, expected {size // 8} bytes, got {len(value)} bytes")
+    if size and len(value) != (size + 7) // 8:
+        raise ValueError(f"Invalid byte value, expected {(size + 7) // 8} bytes, got {len(value)} bytes")
     return int.from_bytes(value, ENDIANNESS_MAP.get(endian, endian), signed=sign)
 
 
-- 
2.43.0


From a55908382fa130cab5cb0dadd108b3791208ee71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:12 +0000
Subject: [PATCH 38/49] fix: structures with bit fields and constructed
 structures can be dumped in color

dumpstruct() looked every field up in the sizes that the readers record, which
do not have bit fields (KeyError) and which constructed structures do not have
(AttributeError).
---
 dissect/cstruct/utils.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/utils.py b/dissect/cstruct/utils.py
index 03ca0e6..9a87336 100644
--- a/dissect/cstruct/utils.py
+++ b/dissect/cstruct/utils.py
@@ -6,6 +6,7 @@ import sys
 from enum import Enum
 from typing import TYPE_CHECKING
 
+from dissect.cstruct.types.enum import EnumMetaType
 from dissect.cstruct.types.pointer import Pointer
 from dissect.cstruct.types.structure import Structure
 
@@ -153,13 +154,27 @@ def _dumpstruct(
     ci = 0
     out = [f"struct {structure.__class__.__name__}:"]
     foreground, background = None, None
+    sizes = getattr(structure, "_sizes", {})
+    unit, remaining = None, 0
     for field in structure.__class__.__fields__:
         if getattr(field.type, "anonymous", False):
             continue
 
         if color:
             foreground, background = colors[ci % len(colors)]
-            palette.append((structure._sizes[field._name], background))
+            if field.bits:
+                # The first bit field of a unit gets all of the bytes of that unit, the others none
+                size = 0
+                field_type = field.type.type if isinstance(field.type, EnumMetaType) else field.type
+                if not remaining or field_type is not unit:
+                    size = field_type.size
+                    unit, remaining = field_type, size * 8
+                remaining -= field.bits
+            else:
+                # Not every field has a recorded size, and constructed structures have none at all
+                size = sizes.get(field._name, field.type.size or 0)
+                remaining = 0
+            palette.append((size, background))
         ci += 1
 
         value = getattr(structure, field._name)
-- 
2.43.0


From 11e5910224a3f8248b91d122682e93b775555b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:18:13 +0000
Subject: [PATCH 39/49] fix: dumpstruct without color does not print color
 codes

---
 dissect/cstruct/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/utils.py b/dissect/cstruct/utils.py
index 9a87336..4089a47 100644
--- a/dissect/cstruct/utils.py
+++ b/dissect/cstruct/utils.py
@@ -141,7 +141,7 @@ def _dumpstruct(
     color: bool,
     output: str,
 ) -> str | None:
-    palette = []
+    palette = [] if color else None
     colors = [
         (COLOR_RED, COLOR_BG_RED),
         (COLOR_GREEN, COLOR_BG_GREEN),
-- 
2.43.0


From 0f0d4bb26788a9f1b3fbba18760d731590144f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:28 +0000
Subject: [PATCH 40/49] fix: stubs of anonymous enums have valid literals

The members were written with their representation: Literal[<A: 0>].
---
 dissect/cstruct/tools/stubgen.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dissect/cstruct/tools/stubgen.py b/dissect/cstruct/tools/stubgen.py
index 8f30b6a..d7eb385 100644
--- a/dissect/cstruct/tools/stubgen.py
+++ b/dissect/cstruct/tools/stubgen.py
@@ -76,6 +76,9 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
     for name, value in cs.consts.items():
         if name in empty_cs.consts:
             continue
+        if isinstance(value, (types.Enum, types.Flag)):
+            # Members of an anonymous enum, their representation is not a literal
+            value = value.value
         body.append(textwrap.indent(f"{name}: Literal[{value!r}] = ...", prefix=indent))
 
     defined_names = set()
-- 
2.43.0


From 4a836f2203d95620c126e1f2066390e0fdb8a592 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 41/49] fix: stubs of typedefs of arrays, pointers and names of
 other types

Typedefs of arrays and pointers were written as classes with an invalid name
(class uint8*(Pointer)), and types that are an alias of a name could not be
written at all (AttributeError).
---
 dissect/cstruct/tools/stubgen.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/tools/stubgen.py b/dissect/cstruct/tools/stubgen.py
index d7eb385..3035c46 100644
--- a/dissect/cstruct/tools/stubgen.py
+++ b/dissect/cstruct/tools/stubgen.py
@@ -88,7 +88,17 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
         if name in empty_cs.typedefs:
             continue
 
-        if typedef.__name__ in empty_cs.typedefs:
+        if isinstance(typedef, str):
+            # An alias of a type that is looked up by name
+            typedef = cs.resolve(typedef)
+            stub = f"{name}: TypeAlias = {generate_typehint(typedef, cs_prefix, module_prefix)}"
+            body.append(textwrap.indent(stub, prefix=indent))
+            continue
+
+        if issubclass(typedef, (types.BaseArray, types.Pointer)):
+            # The name of an array or pointer type is not a Python name
+            stub = f"{name}: TypeAlias = {generate_typehint(typedef, cs_prefix, module_prefix)}"
+        elif typedef.__name__ in empty_cs.typedefs:
             stub = f"{name}: TypeAlias = {cs_prefix}{typedef.__name__}"
         elif typedef.__name__ in defined_names:
             # Create an alias to the type if we have already seen it before.
@@ -99,8 +109,6 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
             stub = generate_structure_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix)
         elif issubclass(typedef, types.BaseType):
             stub = generate_generic_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix)
-        elif isinstance(typedef, str):
-            stub = f"{name}: TypeAlias = {typedef}"
         else:
             raise TypeError(f"Unknown typedef: {typedef}")
 
-- 
2.43.0


From a163d499fc83ffc32dd108fdeca955996b584c60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:32 +0000
Subject: [PATCH 42/49] fix: stubs of fields refer to the type that the field
 has

A structure that an array is of was always defined once more, a structure that a
pointer points to never was, and a structure defined inside of another one was
taken for the global one of the same name.
---
 dissect/cstruct/tools/stubgen.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/tools/stubgen.py b/dissect/cstruct/tools/stubgen.py
index 3035c46..e89b309 100644
--- a/dissect/cstruct/tools/stubgen.py
+++ b/dissect/cstruct/tools/stubgen.py
@@ -172,15 +172,18 @@ def generate_structure_stub(
 
     args = ["self"]
     for field_name, field in structure.fields.items():
-        type_name = field.type.__name__
         inlined = False
 
         # If it's a structure and not globally defined, add an inline stub for it
         nested_type = field.type
-        while issubclass(nested_type, types.BaseArray):
+        while issubclass(nested_type, (types.BaseArray, types.Pointer)):
             nested_type = nested_type.type
 
-        if issubclass(nested_type, types.Structure) and type_name not in structure.cs.typedefs:
+        if (
+            issubclass(nested_type, types.Structure)
+            and nested_type is not structure
+            and structure.cs.typedefs.get(nested_type.__name__) is not nested_type
+        ):
             inlined = True
             inline_stub = generate_structure_stub(nested_type, cs_prefix=cs_prefix, module_prefix=module_prefix)
 
-- 
2.43.0


From 02088a89e67073f0c9e5267ebb7a2b41fc9b097a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:34 +0000
Subject: [PATCH 43/49] fix: stubs of enums without members have a body

---
 dissect/cstruct/tools/stubgen.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dissect/cstruct/tools/stubgen.py b/dissect/cstruct/tools/stubgen.py
index e89b309..c13e689 100644
--- a/dissect/cstruct/tools/stubgen.py
+++ b/dissect/cstruct/tools/stubgen.py
@@ -155,6 +155,8 @@ def generate_enum_stub(
 ) -> str:
     result = [f"class {name_prefix}{enum.__name__}({module_prefix}{enum.__base__.__name__}):"]
     result.extend(f"    {key} = ..." for key in enum.__members__)
+    if len(result) == 1:
+        result.append("    ...")
     result.append("")
 
     return "\n".join(result)
-- 
2.43.0


From 4b6d2cded4e67d1a4db08545ad4049c2ecf55e99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:01 +0000
Subject: [PATCH 44/49] fix: stubs of structures with a field called self are
 valid Python

---
 dissect/cstruct/tools/stubgen.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/tools/stubgen.py b/dissect/cstruct/tools/stubgen.py
index c13e689..7bd6bec 100644
--- a/dissect/cstruct/tools/stubgen.py
+++ b/dissect/cstruct/tools/stubgen.py
@@ -172,7 +172,12 @@ def generate_structure_stub(
 
     indent = " " * 4
 
-    args = ["self"]
+    # A field may be called self as well
+    self_name = "self"
+    while self_name in structure.fields:
+        self_name = f"_{self_name}"
+
+    args = [self_name]
     for field_name, field in structure.fields.items():
         inlined = False
 
-- 
2.43.0


From cfbf5904d2cf7c95c7a5e6d519f29401d6a6056d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:36:03 +0000
Subject: [PATCH 45/49] fix: stubs only declare names that can be declared in
 Python

Definitions, fields and members that are called like a Python keyword, and
constants of macros with arguments, made the whole stub invalid.
---
 dissect/cstruct/tools/stubgen.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/tools/stubgen.py b/dissect/cstruct/tools/stubgen.py
index 7bd6bec..f7d08ec 100644
--- a/dissect/cstruct/tools/stubgen.py
+++ b/dissect/cstruct/tools/stubgen.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import argparse
 import importlib
 import importlib.util
+import keyword
 import logging
 import textwrap
 from pathlib import Path
@@ -17,6 +18,11 @@ if TYPE_CHECKING:
 log = logging.getLogger(__name__)
 
 
+def is_name(name: str) -> bool:
+    """Return whether the given name can be declared in Python."""
+    return name.isidentifier() and not keyword.iskeyword(name)
+
+
 def load_module(path: Path, base: Path) -> ModuleType | None:
     module = None
     try:
@@ -74,7 +80,7 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
 
     # Constants first
     for name, value in cs.consts.items():
-        if name in empty_cs.consts:
+        if name in empty_cs.consts or not is_name(name):
             continue
         if isinstance(value, (types.Enum, types.Flag)):
             # Members of an anonymous enum, their representation is not a literal
@@ -85,7 +91,7 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
 
     # Then typedefs
     for name, typedef in cs.typedefs.items():
-        if name in empty_cs.typedefs:
+        if name in empty_cs.typedefs or not is_name(name):
             continue
 
         if isinstance(typedef, str):
@@ -135,6 +141,8 @@ def generate_typehint(
         return f"{module_prefix}Pointer[{generate_typehint(type_.type, prefix, module_prefix)}]"
     if issubclass(type_, types.Array):
         return f"{module_prefix}Array[{generate_typehint(type_.type, prefix, module_prefix)}]"
+    if not is_name(type_.__name__):
+        return f"{module_prefix}{type_.__base__.__name__}"
     return f"{prefix}{type_.__name__}"
 
 
@@ -154,7 +162,7 @@ def generate_enum_stub(
     module_prefix: str = "",
 ) -> str:
     result = [f"class {name_prefix}{enum.__name__}({module_prefix}{enum.__base__.__name__}):"]
-    result.extend(f"    {key} = ..." for key in enum.__members__)
+    result.extend(f"    {key} = ..." for key in enum.__members__ if is_name(key))
     if len(result) == 1:
         result.append("    ...")
     result.append("")
@@ -179,6 +187,9 @@ def generate_structure_stub(
 
     args = [self_name]
     for field_name, field in structure.fields.items():
+        if not is_name(field_name):
+            continue
+
         inlined = False
 
         # If it's a structure and not globally defined, add an inline stub for it
@@ -189,6 +200,7 @@ def generate_structure_stub(
         if (
             issubclass(nested_type, types.Structure)
             and nested_type is not structure
+            and is_name(nested_type.__name__)
             and structure.cs.typedefs.get(nested_type.__name__) is not nested_type
         ):
             inlined = True
-- 
2.43.0


From 2002a4d07c523a2de6f620bcadcb410f6c4103d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:59 +0000
Subject: [PATCH 46/49] fix: stubs of aliases of types whose name is a Python
 keyword

---
 dissect/cstruct/tools/stubgen.py | 24 +++++++++++++++---------
 1 file changed, 15 insertions(+), 9 deletions(-)

diff --git a/dissect/cstruct/tools/stubgen.py b/dissect/cstruct/tools/stubgen.py
index f7d08ec..653913c 100644
--- a/dissect/cstruct/tools/stubgen.py
+++ b/dissect/cstruct/tools/stubgen.py
@@ -87,7 +87,7 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
             value = value.value
         body.append(textwrap.indent(f"{name}: Literal[{value!r}] = ...", prefix=indent))
 
-    defined_names = set()
+    defined_names = {}
 
     # Then typedefs
     for name, typedef in cs.typedefs.items():
@@ -101,6 +101,9 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
             body.append(textwrap.indent(stub, prefix=indent))
             continue
 
+        # A type whose own name can't be declared goes by the name of its alias
+        class_name = typedef.__name__ if is_name(typedef.__name__) else name
+
         if issubclass(typedef, (types.BaseArray, types.Pointer)):
             # The name of an array or pointer type is not a Python name
             stub = f"{name}: TypeAlias = {generate_typehint(typedef, cs_prefix, module_prefix)}"
@@ -108,17 +111,17 @@ def generate_cstruct_stub(cs: cstruct, module_prefix: str = "", cls_name: str =
             stub = f"{name}: TypeAlias = {cs_prefix}{typedef.__name__}"
         elif typedef.__name__ in defined_names:
             # Create an alias to the type if we have already seen it before.
-            stub = f"{name}: TypeAlias = {typedef.__name__}"
+            stub = f"{name}: TypeAlias = {defined_names[typedef.__name__]}"
         elif issubclass(typedef, (types.Enum, types.Flag)):
-            stub = generate_enum_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix)
+            stub = generate_enum_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix, name=class_name)
         elif issubclass(typedef, types.Structure):
-            stub = generate_structure_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix)
+            stub = generate_structure_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix, name=class_name)
         elif issubclass(typedef, types.BaseType):
-            stub = generate_generic_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix)
+            stub = generate_generic_stub(typedef, cs_prefix=cs_prefix, module_prefix=module_prefix, name=class_name)
         else:
             raise TypeError(f"Unknown typedef: {typedef}")
 
-        defined_names.add(typedef.__name__)
+        defined_names.setdefault(typedef.__name__, class_name)
 
         body.append(textwrap.indent(stub, prefix=indent))
 
@@ -151,8 +154,9 @@ def generate_generic_stub(
     name_prefix: str = "",
     cs_prefix: str = "",
     module_prefix: str = "",
+    name: str | None = None,
 ) -> str:
-    return f"class {name_prefix}{type_.__name__}({module_prefix}{type_.__base__.__name__}): ...\n"
+    return f"class {name_prefix}{name or type_.__name__}({module_prefix}{type_.__base__.__name__}): ...\n"
 
 
 def generate_enum_stub(
@@ -160,8 +164,9 @@ def generate_enum_stub(
     name_prefix: str = "",
     cs_prefix: str = "",
     module_prefix: str = "",
+    name: str | None = None,
 ) -> str:
-    result = [f"class {name_prefix}{enum.__name__}({module_prefix}{enum.__base__.__name__}):"]
+    result = [f"class {name_prefix}{name or enum.__name__}({module_prefix}{enum.__base__.__name__}):"]
     result.extend(f"    {key} = ..." for key in enum.__members__ if is_name(key))
     if len(result) == 1:
         result.append("    ...")
@@ -175,8 +180,9 @@ def generate_structure_stub(
     name_prefix: str = "",
     cs_prefix: str = "",
     module_prefix: str = "",
+    name: str | None = None,
 ) -> str:
-    result = [f"class {name_prefix}{structure.__name__}({module_prefix}{structure.__base__.__name__}):"]
+    result = [f"class {name_prefix}{name or structure.__name__}({module_prefix}{structure.__base__.__name__}):"]
 
     indent = " " * 4
 
-- 
2.43.0


From 0ca4cf2ab8017532ad9e1ea1ca6d2beea4ecfab1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:49 +0000
Subject: [PATCH 47/49] fix: dump members of a union at their explicit offset

---
 dissect/cstruct/types/structure.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 61b1feb..a6f6896 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -545,11 +545,12 @@ class UnionMetaType(StructureMetaType):
             is_anonymous = isinstance(field.type, StructureMetaType) and field.name is None
             value = field.type.dumps(data if is_anonymous else getattr(data, field._name))
 
-            size = max(size, len(value))
+            offset = field.offset or 0
+            size = max(size, offset + len(value))
 
             # Smaller fields only contribute where the larger fields have padding
-            result |= int.from_bytes(value, "little") & ~written
-            written |= int.from_bytes(_data_mask(field.type), "little")
+            result |= (int.from_bytes(value, "little") << (offset * 8)) & ~written
+            written |= int.from_bytes(_data_mask(field.type), "little") << (offset * 8)
 
             if written == complete:
                 break
-- 
2.43.0


From df68dd8d390bd99ed5da577ad1b4b32e74bf3ea4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:34 +0000
Subject: [PATCH 48/49] fix: lay out bit-fields in the native byte order when
 it is configured

---
 dissect/cstruct/bitbuffer.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dissect/cstruct/bitbuffer.py b/dissect/cstruct/bitbuffer.py
index edf85f0..07b1a83 100644
--- a/dissect/cstruct/bitbuffer.py
+++ b/dissect/cstruct/bitbuffer.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import sys
 from typing import TYPE_CHECKING, BinaryIO
 
 if TYPE_CHECKING:
@@ -11,6 +12,9 @@ class BitBuffer:
 
     def __init__(self, stream: BinaryIO, endian: str):
         self.stream = stream
+        if endian in ("@", "="):
+            # The native byte order
+            endian = "<" if sys.byteorder == "little" else ">"
         self.endian = endian
 
         self._type: type[BaseType] | None = None
-- 
2.43.0


From 055d8ea495376cfda517815052fe7c2c510c23bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:11:34 +0000
Subject: [PATCH 49/49] fix: read compiled structures without native padding

---
 dissect/cstruct/types/packed.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dissect/cstruct/types/packed.py b/dissect/cstruct/types/packed.py
index 44d5d6e..a3dc683 100644
--- a/dissect/cstruct/types/packed.py
+++ b/dissect/cstruct/types/packed.py
@@ -13,6 +13,10 @@ if TYPE_CHECKING:
 
 @lru_cache(1024)
 def _struct(endian: str, packchar: str) -> Struct:
+    if endian == "@":
+        # The native byte order, but without the native padding
+        endian = "="
+
     return Struct(f"{endian}{packchar}")
 
 
-- 
2.43.0

