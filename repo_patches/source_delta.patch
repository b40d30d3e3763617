From b2cb0f510fb63e4ccad21ecb24559edd3cdb89ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 01/42] fix: keep track of the stream position in generated
 readers around bit fields, nested structures and dynamic fields

---
 dissect/cstruct/compiler.py | 48 +++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 15 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 1b608a4..de49402 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -137,14 +137,16 @@ class _ReadSourceGenerator:
         prev_was_bits = False
         prev_bits_type = None
         bits_remaining = 0
-        bits_rollover = False
 
         def flush() -> Iterator[str]:
-            if current_block:
-                if self.align and current_block[0].offset is None:
-                    yield f"stream.seek(-stream.tell() & ({current_block[0].alignment} - 1), {io.SEEK_CUR})"
+            nonlocal current_offset
 
+            if current_block:
+                yield from align_to_field(current_block[0])
                 yield from self._generate_packed(current_block)
+
+                last_field = current_block[-1]
+                current_offset = None if last_field.offset is None else last_field.offset + len(last_field.type)
                 current_block[:] = []
 
         def align_to_field(field: Field) -> Iterator[str]:
@@ -198,31 +200,47 @@ class _ReadSourceGenerator:
                 if size is None:
                     raise TypeError(f"Unsupported type for bit field: {field_type}")
 
-                if not prev_was_bits:
-                    prev_bits_type = field_type
-                    prev_was_bits = True
-
-                if bits_remaining == 0 or prev_bits_type != field_type:
-                    bits_remaining = (size * 8) - field.bits
-                    bits_rollover = True
-
                 yield from flush()
                 yield from align_to_field(field)
                 yield from self._generate_bits(field)
 
+                if not prev_was_bits or bits_remaining == 0 or prev_bits_type != field_type:
+                    # This field starts a new bit field unit, which is read from the stream in its entirety
+                    prev_was_bits = True
+                    prev_bits_type = field_type
+                    bits_remaining = size * 8
+                    if current_offset is not None:
+                        current_offset += size
+
+                bits_remaining -= field.bits
+
             # Everything else - basic and composite types (and arrays of them)
             else:
+                if current_block and self._starts_new_block(current_block, field):
+                    yield from flush()
+
                 current_block.append(field)
+                continue
 
-            if current_offset is not None and size is not None and (not field.bits or bits_rollover):
-                current_offset += size
-                bits_rollover = False
+            if not field.bits:
+                # We only know where we are if both the start and the size of this field are known
+                current_offset = None if current_offset is None or is_dynamic else current_offset + size
 
         yield from flush()
 
         if self.align:
             yield f"stream.seek(-stream.tell() & (cls.alignment - 1), {io.SEEK_CUR})"
 
+    def _starts_new_block(self, block: list[Field], field: Field) -> bool:
+        first_field, last_field = block[0], block[-1]
+
+        if field.offset is None or last_field.offset is None:
+            # The start of a block at a dynamic offset is only aligned to the alignment of its first field
+            return self.align and field.alignment > first_field.alignment
+
+        # We can only skip forward in a block
+        return field.offset < last_field.offset + len(last_field.type)
+
     def _generate_structure(self, field: Field) -> Iterator[str]:
         template = f"""
         _s = stream.tell()
-- 
2.43.0


From e5a762d9914dcc074935a5e011377c46abe4d450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 02/42] fix: do not share a bit field unit between char and
 uint8 in generated readers

---
 dissect/cstruct/compiler.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index de49402..1d3e72e 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -260,20 +260,17 @@ class _ReadSourceGenerator:
         yield dedent(template)
 
     def _generate_bits(self, field: Field) -> Iterator[str]:
-        lookup = self._map_field(field)
+        value_type = "_t"
         read_type = "_t"
-        field_type = field.type
-        if issubclass(field_type, (Enum, Flag)):
+        if issubclass(field.type, (Enum, Flag)):
             read_type += ".type"
-            field_type = field_type.type
 
-        if issubclass(field_type, Char):
-            field_type = field_type.cs.uint8
-            lookup = "cls.cs.uint8"
+        if issubclass(field.type, Char):
+            value_type = "cls.cs.uint8"
 
         template = f"""
-        _t = {lookup}
-        r["{field._name}"] = type.__call__(_t, bit_reader.read({read_type}, {field.bits}))
+        _t = {self._map_field(field)}
+        r["{field._name}"] = type.__call__({value_type}, bit_reader.read({read_type}, {field.bits}))
         """
 
         yield dedent(template)
-- 
2.43.0


From c414f2f0701495018a3d61329a24931fa4067a7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 03/42] fix: parse enum arrays and pointers based on byte-sized
 integers in generated readers

---
 dissect/cstruct/compiler.py | 28 +++++++++++++++++++---------
 1 file changed, 19 insertions(+), 9 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 1d3e72e..e8e667a 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -313,28 +313,38 @@ class _ReadSourceGenerator:
                 # All other types can be simply intialized
                 parser_template = "type.__call__({type}, {getter})"
 
+            if issubclass(read_type, Int):
+                # The pointer value still needs to be parsed from its bytes
+                pointer_template = "{type}.__new__({type}, cls.cs.pointer({getter}), stream, r)"
+            else:
+                pointer_template = "{type}.__new__({type}, {getter}, stream, r)"
+
             # Create the final reading code
             if issubclass(field_type, Array):
                 reads.append(f"_t = {self._map_field(field)}")
                 reads.append("_et = _t.type")
 
-                if issubclass(field_type.type, Int):
+                if issubclass(read_type, Int):
                     reads.append(f"_b = {getter}")
-                    item_parser = parser_template.format(type="_et", getter=f"_b[i:i + {field_type.type.size}]")
-                    list_comp = f"[{item_parser} for i in range(0, {count}, {field_type.type.size})]"
-                elif issubclass(field_type.type, Pointer):
-                    item_parser = "_et.__new__(_et, e, stream, r)"
-                    list_comp = f"[{item_parser} for e in {getter}]"
+                    item_getter = f"_b[i:i + {read_type.size}]"
+                    item_loop = f"i in range(0, {count}, {read_type.size})"
                 else:
-                    item_parser = parser_template.format(type="_et", getter="e")
-                    list_comp = f"[{item_parser} for e in {getter}]"
+                    item_getter = "e"
+                    item_loop = f"e in {getter}"
+
+                if issubclass(field_type.type, Pointer):
+                    item_parser = pointer_template.format(type="_et", getter=item_getter)
+                else:
+                    item_parser = parser_template.format(type="_et", getter=item_getter)
+
+                list_comp = f"[{item_parser} for {item_loop}]"
 
                 parser = f"type.__call__(_t, {list_comp})"
             elif issubclass(field_type, CharArray):
                 parser = f"type.__call__({self._map_field(field)}, {getter})"
             elif issubclass(field_type, Pointer):
                 reads.append(f"_pt = {self._map_field(field)}")
-                parser = f"_pt.__new__(_pt, {getter}, stream, r)"
+                parser = pointer_template.format(type="_pt", getter=getter)
             else:
                 parser = parser_template.format(type=self._map_field(field), getter=getter)
 
-- 
2.43.0


From 39c961e7a1dd73918bc0477cc633f8881a69b2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:32:40 +0000
Subject: [PATCH 04/42] fix: do not skip unpacking of a single element followed
 by raw bytes in generated readers

---
 dissect/cstruct/compiler.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index e8e667a..20af870 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -355,7 +355,7 @@ class _ReadSourceGenerator:
             size += field_type.size
 
         fmt = _optimize_struct_fmt(info)
-        if fmt == "x" or (len(fmt) == 2 and fmt[1] == "x"):
+        if (fmt == "x" or (len(fmt) == 2 and fmt[1] == "x")) and not any("data[" in read for read in reads):
             unpack = ""
         else:
             unpack = f'data = _struct(cls.cs.endian, "{fmt}").unpack(buf)\n'
-- 
2.43.0


From da2253786c5be4664ecbbc63f00e9a737f09e64f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:01 +0000
Subject: [PATCH 05/42] fix: allow multiple bit fields in a unit after a
 dynamically sized field

---
 dissect/cstruct/types/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index a1074af..9605afd 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -194,7 +194,7 @@ class StructureMetaType(MetaType):
                     # Moved to a bit field of another type, e.g. uint16 f1 : 8, uint32 f2 : 8;
                     or field_type != bits_type
                     # Still processing a bit field, but it's at a different offset due to alignment or a manual offset
-                    or (bits_type is not None and offset > bits_field_offset + bits_type.size)
+                    or (bits_type is not None and offset is not None and offset > bits_field_offset + bits_type.size)
                 ):
                     # ... if any of this is true, we have to move to the next field
                     bits_type = field_type
-- 
2.43.0


From ea30fda3ebe2b7f83a2edc3dd02521934d98f8e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:31 +0000
Subject: [PATCH 06/42] fix: do not confuse an identifier named u with the
 unary minus operator in expressions

---
 dissect/cstruct/expression.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/dissect/cstruct/expression.py b/dissect/cstruct/expression.py
index 6c48356..5cd3bd5 100644
--- a/dissect/cstruct/expression.py
+++ b/dissect/cstruct/expression.py
@@ -11,6 +11,9 @@ if TYPE_CHECKING:
 
 HEXBIN_SUFFIX = {"x", "X", "b", "B"}
 
+# Token for the unary minus operator, can't be a valid identifier
+UNARY_MINUS = "-u"
+
 
 class ExpressionTokenizer:
     def __init__(self, expression: str):
@@ -167,7 +170,7 @@ class Expression:
     }
 
     unary_operators: ClassVar[dict[str, Callable[[int], int]]] = {
-        "u": lambda a: -a,
+        UNARY_MINUS: lambda a: -a,
         "~": lambda a: ~a,
     }
 
@@ -182,7 +185,7 @@ class Expression:
         "*": 5,
         "/": 5,
         "%": 5,
-        "u": 6,
+        UNARY_MINUS: 6,
         "~": 6,
         "sizeof": 6,
     }
@@ -236,10 +239,10 @@ class Expression:
         for i in range(len(self.tokens)):
             if self.tokens[i] == "-":
                 if i == 0:
-                    self.tokens[i] = "u"
+                    self.tokens[i] = UNARY_MINUS
                     continue
-                if self.tokens[i - 1] in operators or self.tokens[i - 1] == "u" or self.tokens[i - 1] == "(":
-                    self.tokens[i] = "u"
+                if self.tokens[i - 1] in operators or self.tokens[i - 1] == UNARY_MINUS or self.tokens[i - 1] == "(":
+                    self.tokens[i] = UNARY_MINUS
                     continue
 
         i = 0
-- 
2.43.0


From 24ed1767d76f102ccd1d82b1043647338b3d04ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:36 +0000
Subject: [PATCH 07/42] fix: do not share evaluation state between concurrent
 evaluations of an expression

---
 dissect/cstruct/expression.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/dissect/cstruct/expression.py b/dissect/cstruct/expression.py
index 5cd3bd5..b924824 100644
--- a/dissect/cstruct/expression.py
+++ b/dissect/cstruct/expression.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import copy
 import string
 from typing import TYPE_CHECKING, Callable, ClassVar
 
@@ -228,6 +229,12 @@ class Expression:
     def evaluate(self, context: dict[str, int] | None = None) -> int:
         """Evaluates an expression using a Shunting-Yard implementation."""
 
+        # The evaluation state is kept on the object, so evaluate a copy to not share it between concurrent evaluations
+        expression = copy.copy(self)
+        expression.tokens = self.tokens.copy()
+        return expression._evaluate(context)
+
+    def _evaluate(self, context: dict[str, int] | None = None) -> int:
         self.stack = []
         self.queue = []
         operators = set(self.binary_operators.keys()) | set(self.unary_operators.keys())
-- 
2.43.0


From fa159fa01a504092a3a3da254fe33aab0ca70ae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:34:44 +0000
Subject: [PATCH 08/42] fix: do not share mutable default values between
 structure instances

---
 dissect/cstruct/types/base.py      |  2 +-
 dissect/cstruct/types/structure.py | 13 ++++++++++++-
 2 files changed, 13 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index 0c9e527..b78c733 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -244,7 +244,7 @@ class BaseArray(BaseType):
     @classmethod
     def __default__(cls) -> BaseType:
         return type.__call__(
-            cls, [cls.type.__default__()] * (cls.num_entries if isinstance(cls.num_entries, int) else 0)
+            cls, [cls.type.__default__() for _ in range(cls.num_entries if isinstance(cls.num_entries, int) else 0)]
         )
 
     @classmethod
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 9605afd..67fc6b1 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -78,13 +78,24 @@ class StructureMetaType(MetaType):
             # Shortcut for single char/bytes type
             return type.__call__(cls, *args, **kwargs)
         if not args and not kwargs:
-            obj = type.__call__(cls)
+            obj = type.__call__(cls, **cls._mutable_defaults(args, kwargs))
             object.__setattr__(obj, "_values", {})
             object.__setattr__(obj, "_sizes", {})
             return obj
 
+        if len(args) != 1 or not (_is_readable_type(args[0]) or _is_buffer_type(args[0])):
+            kwargs.update(cls._mutable_defaults(args, kwargs))
+
         return super().__call__(*args, **kwargs)
 
+    def _mutable_defaults(cls, args: tuple[Any, ...], kwargs: dict[str, Any]) -> dict[str, Any]:
+        """Create new default values for unspecified fields with a mutable type, so instances don't share them."""
+        return {
+            field._name: field.type.__default__()
+            for field in cls.__fields__[len(args) :]
+            if issubclass(field.type, (Structure, list)) and kwargs.get(field._name) is None
+        }
+
     def _update_fields(
         cls, fields: list[Field], align: bool = False, classdict: dict[str, Any] | None = None
     ) -> dict[str, Any]:
-- 
2.43.0


From 1dd7383bc2ba5e4b21213fb28c7b812790b22c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:05 +0000
Subject: [PATCH 09/42] fix: allow structure fields named self or cls

---
 dissect/cstruct/types/base.py      | 2 +-
 dissect/cstruct/types/structure.py | 8 ++++----
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index b78c733..93e9a52 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -32,7 +32,7 @@ class MetaType(type):
     ArrayType: type[BaseArray] = "Array"
     """The array type for this type class."""
 
-    def __call__(cls, *args, **kwargs) -> Self:  # type: ignore
+    def __call__(cls, /, *args, **kwargs) -> Self:  # type: ignore
         """Adds support for ``TypeClass(bytes | file-like object)`` parsing syntax."""
         # TODO: add support for Type(cs) API to create new bounded type classes, similar to the old API?
         if len(args) == 1 and not isinstance(args[0], cls):
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 67fc6b1..d0b607c 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -67,7 +67,7 @@ class StructureMetaType(MetaType):
 
         return super().__new__(metacls, name, bases, classdict)
 
-    def __call__(cls, *args, **kwargs) -> Self:  # type: ignore
+    def __call__(cls, /, *args, **kwargs) -> Self:  # type: ignore
         if (
             cls.__fields__
             and len(args) == len(cls.__fields__) == 1
@@ -416,7 +416,7 @@ class Structure(BaseType, metaclass=StructureMetaType):
 class UnionMetaType(StructureMetaType):
     """Base metaclass for cstruct union type classes."""
 
-    def __call__(cls, *args, **kwargs) -> Self:  # type: ignore
+    def __call__(cls, /, *args, **kwargs) -> Self:  # type: ignore
         obj: Union = super().__call__(*args, **kwargs)
 
         # Calling with non-stream args or kwargs means we are initializing with values
@@ -793,7 +793,7 @@ def _generate_structure__init__(fields: list[Field]) -> FunctionType:
         template.__code__.replace(
             co_consts=(None, *[field.type.__default__() for field in fields]),
             co_names=(*field_names,),
-            co_varnames=("self", *field_names),
+            co_varnames=("self" if "self" not in field_names else "__self", *field_names),
         ),
         template.__globals__,
         argdefs=template.__defaults__,
@@ -815,7 +815,7 @@ def _generate_union__init__(fields: list[Field]) -> FunctionType:
                 None,
                 *sum([(field._name, field.type.__default__()) for field in fields], ()),
             ),
-            co_varnames=("self", *field_names),
+            co_varnames=("self" if "self" not in field_names else "__self", *field_names),
         ),
         template.__globals__,
         argdefs=template.__defaults__,
-- 
2.43.0


From 224e2af5e2630ca6abb86b245cdece1347354f12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:28 +0000
Subject: [PATCH 10/42] fix: give empty structures an alignment of 1 so aligned
 reads and writes don't move the stream to its start

---
 dissect/cstruct/types/structure.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index d0b607c..e7a4458 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -171,7 +171,7 @@ class StructureMetaType(MetaType):
         # The current offset, set to None if we become dynamic
         offset = 0
         # The current alignment for this structure
-        alignment = 0
+        alignment = 1
 
         # The current bit field type
         bits_type = None
@@ -442,7 +442,7 @@ class UnionMetaType(StructureMetaType):
 
     def _calculate_size_and_offsets(cls, fields: list[Field], align: bool = False) -> tuple[int | None, int]:
         size = 0
-        alignment = 0
+        alignment = 1
 
         for field in fields:
             if size is not None:
-- 
2.43.0


From c3598323d008e237135a1706d0ecd9a82357cc67 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:35 +0000
Subject: [PATCH 11/42] fix: record field sizes of dynamic unions relative to
 the start of the union

---
 dissect/cstruct/types/structure.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index e7a4458..5da2347 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -484,7 +484,7 @@ class UnionMetaType(StructureMetaType):
             buf.seek(offset + start)
             value = field_type._read(buf, result)
 
-            sizes[field._name] = buf.tell() - start
+            sizes[field._name] = buf.tell() - offset - start
             result[field._name] = value
 
         return result, sizes
-- 
2.43.0


From 397ce27c0f3681dd174eff4c83af6698212d8cde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:36:13 +0000
Subject: [PATCH 12/42] fix: restore the stream position when dereferencing a
 pointer fails

---
 dissect/cstruct/types/pointer.py | 20 +++++++++++---------
 1 file changed, 11 insertions(+), 9 deletions(-)

diff --git a/dissect/cstruct/types/pointer.py b/dissect/cstruct/types/pointer.py
index 289e400..569a5fa 100644
--- a/dissect/cstruct/types/pointer.py
+++ b/dissect/cstruct/types/pointer.py
@@ -89,16 +89,18 @@ class Pointer(int, BaseType, Generic[T]):
         if self._value is None and not issubclass(self.type, Void):
             # Read current position of file read/write pointer
             position = self._stream.tell()
-            # Reposition the file read/write pointer
-            self._stream.seek(self)
+            try:
+                # Reposition the file read/write pointer
+                self._stream.seek(self)
+
+                if issubclass(self.type, Char):
+                    # this makes the assumption that a char pointer is a null-terminated string
+                    value = self.type._read_0(self._stream, self._context)
+                else:
+                    value = self.type._read(self._stream, self._context)
+            finally:
+                self._stream.seek(position)
 
-            if issubclass(self.type, Char):
-                # this makes the assumption that a char pointer is a null-terminated string
-                value = self.type._read_0(self._stream, self._context)
-            else:
-                value = self.type._read(self._stream, self._context)
-
-            self._stream.seek(position)
             self._value = value
 
         return self._value
-- 
2.43.0


From 69f53b79ad2c49bcb499d746f10faa66c653d3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:32 +0000
Subject: [PATCH 13/42] fix: dereference pointers inside unions on the stream
 the union was read from

---
 dissect/cstruct/types/base.py      | 8 ++++++++
 dissect/cstruct/types/pointer.py   | 5 +++--
 dissect/cstruct/types/structure.py | 7 +++++--
 3 files changed, 16 insertions(+), 4 deletions(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index 93e9a52..eae7bc6 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -283,6 +283,14 @@ class Array(list[T], BaseArray):
         return cls(super()._read(stream, context))
 
 
+class UnionBuffer(BytesIO):
+    """Buffer for the bytes of a union that keeps track of the stream the union was read from, if any."""
+
+    def __init__(self, data: bytes, stream: BinaryIO | None):
+        super().__init__(data)
+        self.stream = stream.stream if isinstance(stream, UnionBuffer) else stream
+
+
 def _is_readable_type(value: object) -> bool:
     return hasattr(value, "read")
 
diff --git a/dissect/cstruct/types/pointer.py b/dissect/cstruct/types/pointer.py
index 569a5fa..dcf854b 100644
--- a/dissect/cstruct/types/pointer.py
+++ b/dissect/cstruct/types/pointer.py
@@ -3,7 +3,7 @@ from __future__ import annotations
 from typing import TYPE_CHECKING, Any, BinaryIO, Generic, TypeVar
 
 from dissect.cstruct.exceptions import NullPointerDereference
-from dissect.cstruct.types.base import BaseType
+from dissect.cstruct.types.base import BaseType, UnionBuffer
 from dissect.cstruct.types.char import Char
 from dissect.cstruct.types.void import Void
 
@@ -23,7 +23,8 @@ class Pointer(int, BaseType, Generic[T]):
 
     def __new__(cls, value: int, stream: BinaryIO | None, context: dict[str, Any] | None = None) -> Self:
         obj = super().__new__(cls, value)
-        obj._stream = stream
+        # Pointers are relative to the stream that is being read, not to a buffered part of it
+        obj._stream = stream.stream if isinstance(stream, UnionBuffer) else stream
         obj._context = context
         obj._value = None
         return obj
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 5da2347..c872945 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -14,6 +14,7 @@ from dissect.cstruct.bitbuffer import BitBuffer
 from dissect.cstruct.types.base import (
     BaseType,
     MetaType,
+    UnionBuffer,
     _is_buffer_type,
     _is_readable_type,
 )
@@ -472,7 +473,7 @@ class UnionMetaType(StructureMetaType):
             buf = stream
         else:
             offset = 0
-            buf = io.BytesIO(stream.read(cls.size))
+            buf = UnionBuffer(stream.read(cls.size), stream)
 
         for field in cls.__fields__:
             field_type = cls.cs.resolve(field.type)
@@ -510,6 +511,7 @@ class UnionMetaType(StructureMetaType):
         object.__setattr__(obj, "_values", result)
         object.__setattr__(obj, "_sizes", sizes)
         object.__setattr__(obj, "_buf", buf)
+        object.__setattr__(obj, "_stream", stream.stream if isinstance(stream, UnionBuffer) else stream)
 
         if cls.size is not None:
             obj._update()
@@ -556,6 +558,7 @@ class Union(Structure, metaclass=UnionMetaType):
     """Base class for cstruct union type classes."""
 
     _buf: bytes
+    _stream: BinaryIO | None = None
 
     def __eq__(self, other: object) -> bool:
         return self.__class__ is other.__class__ and bytes(self) == bytes(other)
@@ -588,7 +591,7 @@ class Union(Structure, metaclass=UnionMetaType):
         self._proxify()
 
     def _update(self) -> None:
-        result, sizes = self.__class__._read_fields(io.BytesIO(self._buf))
+        result, sizes = self.__class__._read_fields(UnionBuffer(self._buf, self._stream))
         self.__dict__.update(result)
         object.__setattr__(self, "_values", result)
         object.__setattr__(self, "_sizes", sizes)
-- 
2.43.0


From e0c6e0d3d67a9aa30df1070892188d95be08b9eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:00 +0000
Subject: [PATCH 14/42] fix: allow type names of multiple words in sizeof
 expressions

---
 dissect/cstruct/expression.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/expression.py b/dissect/cstruct/expression.py
index b924824..d029e11 100644
--- a/dissect/cstruct/expression.py
+++ b/dissect/cstruct/expression.py
@@ -264,10 +264,15 @@ class Expression:
             elif current_token in self.unary_operators:
                 self.stack.append(current_token)
             elif current_token == "sizeof":
-                if len(tmp_expression) < i + 3 or (tmp_expression[i + 1] != "(" or tmp_expression[i + 3] != ")"):
+                if len(tmp_expression) < i + 3 or (tmp_expression[i + 1] != "(" or ")" not in tmp_expression[i + 3 :]):
                     raise ExpressionParserError("Invalid sizeof operation")
-                self.queue.append(len(self.cstruct.resolve(tmp_expression[i + 2])))
-                i += 3
+                # Type names can consist of multiple words, e.g. unsigned int
+                end = tmp_expression.index(")", i + 3)
+                name = tmp_expression[i + 2 : end]
+                if not all(word.isidentifier() for word in name):
+                    raise ExpressionParserError("Invalid sizeof operation")
+                self.queue.append(len(self.cstruct.resolve(" ".join(name))))
+                i = end
             elif current_token in operators:
                 while (
                     len(self.stack) != 0 and self.stack[-1] != "(" and (self.precedence(self.stack[-1], current_token))
-- 
2.43.0


From 60d952970a090586363456965db68e325a03ce1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:42:58 +0000
Subject: [PATCH 15/42] fix: write signed and char bit fields without failing
 or corrupting neighbouring bit fields

---
 dissect/cstruct/bitbuffer.py | 23 ++++++++++++++++++++++-
 1 file changed, 22 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/bitbuffer.py b/dissect/cstruct/bitbuffer.py
index 57b1fb4..df286b4 100644
--- a/dissect/cstruct/bitbuffer.py
+++ b/dissect/cstruct/bitbuffer.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 
+import sys
 from typing import TYPE_CHECKING, BinaryIO
 
 if TYPE_CHECKING:
@@ -60,6 +61,16 @@ class BitBuffer:
         if self._type is None or self._type.size is None:
             raise ValueError("Invalid state")
 
+        if isinstance(data, bytes):
+            # E.g. the default value of a char
+            data = int.from_bytes(data, self._byteorder())
+
+        if not (-(1 << (bits - 1)) if _is_signed(field_type) else 0) <= data < (1 << bits):
+            raise OverflowError(f"Value {data} does not fit in a bit field of {bits} bits")
+
+        # Don't let the sign of a negative value end up in other bit fields
+        data &= (1 << bits) - 1
+
         if self.endian == "<":
             self._buffer |= data << (self._type.size * 8 - self._remaining)
         else:
@@ -71,7 +82,8 @@ class BitBuffer:
 
     def flush(self) -> None:
         if self._type is not None:
-            self._type._write(self.stream, self._buffer)
+            # The buffer is unsigned, regardless of the signedness of the type
+            self.stream.write(self._buffer.to_bytes(self._type.size, self._byteorder()))
         self._type = None
         self._remaining = 0
         self._buffer = 0
@@ -80,3 +92,12 @@ class BitBuffer:
         self._type = None
         self._buffer = 0
         self._remaining = 0
+
+    def _byteorder(self) -> str:
+        if self.endian in ("@", "="):
+            return sys.byteorder
+        return "little" if self.endian == "<" else "big"
+
+
+def _is_signed(type_: type[BaseType]) -> bool:
+    return getattr(type_, "signed", False) or getattr(type_, "packchar", "").islower()
-- 
2.43.0


From ebe17eb972397ef20d14fe4a04b1b6fb7611e1a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:25 +0000
Subject: [PATCH 16/42] fix: raise EOFError when a union is truncated or read
 short

---
 dissect/cstruct/types/structure.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index c872945..1b19e90 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -502,6 +502,9 @@ class UnionMetaType(StructureMetaType):
             sizes = {}
             buf = stream.read(cls.size)
 
+            if len(buf) != cls.size:
+                raise EOFError(f"Read {len(buf)} bytes, but expected {cls.size}")
+
         # Create the object and set the values
         # Using type.__call__ directly calls the __init__ method of the class
         # This is faster than calling cls() and bypasses the metaclass __call__ method
-- 
2.43.0


From 88103cabde9d23fa8ed3f8305c2afb27f71f10e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:51 +0000
Subject: [PATCH 17/42] fix: keep union members coherent when assigning to
 nested or anonymous members, through held references or when failing

---
 dissect/cstruct/types/structure.py | 37 ++++++++++++++++++++++--------
 1 file changed, 27 insertions(+), 10 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 1b19e90..b33f8a7 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -571,6 +571,11 @@ class Union(Structure, metaclass=UnionMetaType):
             raise NotImplementedError("Modifying a dynamic union is not yet supported")
 
         super().__setattr__(attr, value)
+
+        if attr in self.__class__.fields and attr not in self.__class__.lookup:
+            # Field of an anonymous structure, the assignment has already been processed by the proxy of that structure
+            return
+
         self._rebuild(attr)
 
     def _rebuild(self, attr: str) -> None:
@@ -585,13 +590,16 @@ class Union(Structure, metaclass=UnionMetaType):
         if (value := getattr(self, attr)) is None:
             value = field.type.__default__()
 
-        field.type._write(buf, value)
-
-        object.__setattr__(self, "_buf", buf.getvalue())
-        self._update()
+        try:
+            field.type._write(buf, value)
+            cur_buf = buf.getvalue()
+        finally:
+            # Also restore all values if the new value could not be written
+            object.__setattr__(self, "_buf", cur_buf)
+            self._update()
 
-        # (Re-)proxify all values
-        self._proxify()
+            # (Re-)proxify all values
+            self._proxify()
 
     def _update(self) -> None:
         result, sizes = self.__class__._read_fields(UnionBuffer(self._buf, self._stream))
@@ -600,13 +608,22 @@ class Union(Structure, metaclass=UnionMetaType):
         object.__setattr__(self, "_sizes", sizes)
 
     def _proxify(self) -> None:
-        def _proxy_structure(value: Structure) -> None:
+        # Keep using existing proxies, as there may be references to them
+        proxies = self.__dict__.setdefault("_proxies", {})
+
+        def _proxy_structure(value: Structure, path: tuple[str, ...] = ()) -> None:
+            while isinstance(value, UnionProxy):
+                value = value.__target__
+
             for field in value.__class__.__fields__:
                 if issubclass(field.type, Structure):
                     nested_value = getattr(value, field._name)
-                    proxy = UnionProxy(self, field._name, nested_value)
-                    object.__setattr__(value, field._name, proxy)
-                    _proxy_structure(nested_value)
+                    nested_path = (*path, field._name)
+                    proxy = proxies.setdefault(nested_path, UnionProxy(self, nested_path[0], nested_value))
+                    if nested_value is not proxy:
+                        object.__setattr__(proxy, "__target__", nested_value)
+                        object.__setattr__(value, field._name, proxy)
+                    _proxy_structure(nested_value, nested_path)
 
         _proxy_structure(self)
 
-- 
2.43.0


From d621127e5977fb4b30ae804ae723f61dac5d0104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:44:45 +0000
Subject: [PATCH 18/42] fix: write the bytes of all union members instead of
 only those of the largest

---
 dissect/cstruct/types/structure.py | 19 +++++++++++++++++++
 1 file changed, 19 insertions(+)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index b33f8a7..6ea1d80 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -535,6 +535,11 @@ class UnionMetaType(StructureMetaType):
         fields = sorted(cls.__fields__, key=lambda e: e.type.size or 0, reverse=True)
         anonymous_struct = False
 
+        # Padding of the largest field can hold the value of another field, so combine the bytes of all fields
+        if (buf := cls._combine_fields(data, fields)) is not None:
+            stream.write(buf)
+            return len(buf)
+
         # Try to write by largest field
         for field in fields:
             if isinstance(field.type, StructureMetaType) and field.name is None:
@@ -556,6 +561,20 @@ class UnionMetaType(StructureMetaType):
 
         return stream.tell() - offset
 
+    def _combine_fields(cls, data: Union, fields: list[Field]) -> bytes | None:
+        """Combine the bytes of all fields, or ``None`` if other fields disagree with a (modified) first field."""
+        values = [field.type.dumps(getattr(data, field._name)) for field in fields]
+        if not values or max(map(len, values)) > cls.size:
+            return None
+
+        combined = 0
+        for value in values:
+            combined |= int.from_bytes(value, "little")
+        buf = combined.to_bytes(cls.size, "little")
+
+        largest = fields[0].type
+        return buf if largest.dumps(largest._read(io.BytesIO(buf))) == values[0] else None
+
 
 class Union(Structure, metaclass=UnionMetaType):
     """Base class for cstruct union type classes."""
-- 
2.43.0


From 4b95015cded914c87847d5a2f5bdc71836a4b2a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:01 +0000
Subject: [PATCH 19/42] fix: compare unions by their fields and let nested
 structures of unions compare, hash and convert to bool

---
 dissect/cstruct/types/structure.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 6ea1d80..51090c6 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -583,7 +583,9 @@ class Union(Structure, metaclass=UnionMetaType):
     _stream: BinaryIO | None = None
 
     def __eq__(self, other: object) -> bool:
-        return self.__class__ is other.__class__ and bytes(self) == bytes(other)
+        return self.__class__ is other.__class__ and all(
+            getattr(self, name) == getattr(other, name) for name in self.__class__.lookup
+        )
 
     def __setattr__(self, attr: str, value: Any) -> None:
         if self.__class__.dynamic:
@@ -669,6 +671,20 @@ class UnionProxy:
     def __repr__(self) -> str:
         return repr(self.__target__)
 
+    def __eq__(self, other: object) -> bool:
+        return self.__target__ == other
+
+    def __hash__(self) -> int:
+        return hash(self.__target__)
+
+    def __bool__(self) -> bool:
+        return bool(self.__target__)
+
+    @property
+    def __class__(self) -> type[Structure]:
+        # Behave as the nested structure, e.g. when comparing or checking the type
+        return self.__target__.__class__
+
     def __getattr__(self, attr: str) -> Any:
         return getattr(self.__target__, attr)
 
-- 
2.43.0


From 41841174a06c1a20d6d54da0314d9139f1a3053c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:45:39 +0000
Subject: [PATCH 20/42] fix: drop rejected fields when adding fields to a
 structure so later updates are not affected

---
 dissect/cstruct/types/structure.py | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 51090c6..bc96e1e 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -368,16 +368,28 @@ class StructureMetaType(MetaType):
         cls.__fields__.append(field)
 
         if not cls.__updating__:
-            cls.commit()
+            try:
+                cls.commit()
+            except Exception:
+                # Don't keep a field that was rejected
+                cls.__fields__.remove(field)
+                raise
 
     @contextmanager
     def start_update(cls) -> Iterator[None]:
+        fields = cls.__fields__.copy()
         try:
             cls.__updating__ = True
             yield
         finally:
-            cls.commit()
-            cls.__updating__ = False
+            try:
+                cls.commit()
+            except Exception:
+                # Don't keep fields that were rejected
+                cls.__fields__[:] = fields
+                raise
+            finally:
+                cls.__updating__ = False
 
     def commit(cls) -> None:
         classdict = cls._update_fields(cls.__fields__, cls.__align__)
-- 
2.43.0


From faf7db51e799cbcb8b6b19584b87f06b2245a74b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:12 +0000
Subject: [PATCH 21/42] fix: do not join tokens around a block comment and
 strip line comments in definitions with CRLF line endings

---
 dissect/cstruct/parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 6de850e..62b4ff7 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -327,7 +327,7 @@ class TokenParser(Parser):
     @staticmethod
     def _remove_comments(string: str) -> str:
         # https://stackoverflow.com/a/18381470
-        pattern = r"(\".*?\"|\'.*?\')|(/\*.*?\*/|//[^\r\n]*$)"
+        pattern = r"(\".*?\"|\'.*?\')|(/\*.*?\*/|//[^\r\n]*)"
         # first group captures quoted strings (double or single)
         # second group captures comments (//single-line or /* multi-line */)
         regex = re.compile(pattern, re.MULTILINE | re.DOTALL)
@@ -336,7 +336,8 @@ class TokenParser(Parser):
             # if the 2nd group (capturing comments) is not None,
             # it means we have captured a non-quoted (real) comment string.
             if comment := match.group(2):
-                return "\n" * comment.count("\n")  # so we will return empty to remove the comment
+                # so we will return only whitespace to remove the comment, without joining the tokens around it
+                return "\n" * comment.count("\n") or ("" if comment.startswith("//") else " ")
             # otherwise, we will return the 1st group
             return match.group(1)  # captured quoted-string
 
-- 
2.43.0


From db4e63e151ecbe18d183b17ec49ea77504d7336b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:47 +0000
Subject: [PATCH 22/42] fix: allow whitespace around pointer stars and array
 brackets in definitions

---
 dissect/cstruct/parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 62b4ff7..f404fe1 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -63,7 +63,11 @@ class TokenParser(Parser):
             "ENUM",
         )
         TOK.add(r"(?<=})\s*(?P<defs>(?:[a-zA-Z0-9_]+\s*,\s*)+[a-zA-Z0-9_]+)\s*(?=;)", "DEFS")
-        TOK.add(r"(?P<name>\**?\s*[a-zA-Z0-9_]+)(?:\s*:\s*(?P<bits>\d+))?(?:\[(?P<count>[^;\n]*)\])?\s*(?=;)", "NAME")
+        TOK.add(
+            r"(?P<name>(?:\*\s*)*[a-zA-Z0-9_]+)(?:\s*:\s*(?P<bits>\d+))?"
+            r"(?:\s*\[(?P<count>[^;\n]*(?:\][^\S\n]*\n\s*\[[^;\n]*)*)\])?\s*(?=;)",
+            "NAME",
+        )
         TOK.add(r"[a-zA-Z_][a-zA-Z0-9_]*", "IDENTIFIER")
         TOK.add(r"[{}]", "BLOCK")
         TOK.add(r"\$(?P<name>[^\s]+) = (?P<value>{[^}]+})\w*[\r\n]+", "LOOKUP")
@@ -282,12 +286,12 @@ class TokenParser(Parser):
         count_expression = d["count"]
 
         while name.startswith("*"):
-            name = name[1:]
+            name = name[1:].lstrip()
             type_ = self.cstruct._make_pointer(type_)
 
         if count_expression is not None:
             # Poor mans multi-dimensional array by abusing the eager regex match of count
-            counts = count_expression.split("][") if "][" in count_expression else [count_expression]
+            counts = re.split(r"\]\s*\[", count_expression)
 
             for count in reversed(counts):
                 if count == "":
-- 
2.43.0


From c9470bd4840393c7df8eb44fdab9d7c25388dc30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:24 +0000
Subject: [PATCH 23/42] fix: allow whitespace anywhere in enum definitions and
 do not mistake fields named flag or enum for one

---
 dissect/cstruct/parser.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index f404fe1..85f5bfa 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -58,8 +58,8 @@ class TokenParser(Parser):
         TOK.add(r"typedef(?=\s)", "TYPEDEF")
         TOK.add(r"(?:struct|union)(?=\s|{)", "STRUCT")
         TOK.add(
-            r"(?P<enumtype>enum|flag)\s+(?P<name>[^\s:{]+)?\s*(:\s"
-            r"*(?P<type>[^{]+?)\s*)?\{(?P<values>[^}]+)\}\s*(?=;)",
+            r"(?P<enumtype>enum|flag)\s+(?P<name>[^\s:{;]+)?\s*(:\s"
+            r"*(?P<type>[^{;]+?)\s*)?\{(?P<values>[^}]+)\}\s*(?=;)",
             "ENUM",
         )
         TOK.add(r"(?<=})\s*(?P<defs>(?:[a-zA-Z0-9_]+\s*,\s*)+[a-zA-Z0-9_]+)\s*(?=;)", "DEFS")
@@ -116,11 +116,12 @@ class TokenParser(Parser):
             nextval = 1
 
         values = {}
-        for line in d["values"].splitlines():
+        # Members are separated by a comma or, if a line starts with a new member, by a newline
+        for line in re.split(r"(?<=[\w)])\s*[\r\n]\s*(?=[a-zA-Z_])", d["values"]):
             for v in line.split(","):
                 key, _, val = v.partition("=")
                 key = key.strip()
-                val = val.strip()
+                val = " ".join(val.split())
                 if not key:
                     continue
 
@@ -139,7 +140,7 @@ class TokenParser(Parser):
 
         factory = self.cstruct._make_flag if enumtype == "flag" else self.cstruct._make_enum
 
-        enum = factory(d["name"] or "", self.cstruct.resolve(d["type"]), values)
+        enum = factory(d["name"] or "", self.cstruct.resolve(" ".join(d["type"].split())), values)
         if not enum.__name__:
             self.cstruct.consts.update(enum.__members__)
         else:
-- 
2.43.0


From 57ba42895e5c6d95170a10755fb72f0e0037130d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 24/42] fix: do not leave an incomplete structure registered
 when loading a definition fails

---
 dissect/cstruct/parser.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 85f5bfa..da97853 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -174,6 +174,18 @@ class TokenParser(Parser):
             self.cstruct.add_type(name, type_)
 
     def _struct(self, tokens: TokenConsumer, register: bool = False) -> type[Structure]:
+        if not register:
+            return self._parse_struct(tokens)
+
+        typedefs = self.cstruct.typedefs.copy()
+        try:
+            return self._parse_struct(tokens, register)
+        except Exception:
+            # Don't leave an incomplete structure behind
+            self.cstruct.typedefs = typedefs
+            raise
+
+    def _parse_struct(self, tokens: TokenConsumer, register: bool = False) -> type[Structure]:
         stype = tokens.consume()
 
         factory = self.cstruct._make_union if stype.value.startswith("union") else self.cstruct._make_struct
-- 
2.43.0


From 66480f824c8a1c130b88bb076cc5b63ea7ea76db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:49:36 +0000
Subject: [PATCH 25/42] fix: do not turn an existing type into a cyclic alias
 when re-declaring it

---
 dissect/cstruct/cstruct.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/dissect/cstruct/cstruct.py b/dissect/cstruct/cstruct.py
index 548b3f5..d48d242 100644
--- a/dissect/cstruct/cstruct.py
+++ b/dissect/cstruct/cstruct.py
@@ -220,6 +220,10 @@ class cstruct:
         if not replace and (name in self.typedefs and self.resolve(self.typedefs[name]) != self.resolve(type_)):
             raise ValueError(f"Duplicate type: {name}")
 
+        if not replace and name in self.typedefs:
+            # Already refers to the same type, don't make it refer to a type that in turn may refer to this name
+            return
+
         self.typedefs[name] = type_
 
     addtype = add_type
-- 
2.43.0


From 5295687d821c7910e36cf754ef865a448d3a0a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:09 +0000
Subject: [PATCH 26/42] fix: treat arrays with a negative constant number of
 entries as empty

---
 dissect/cstruct/cstruct.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/dissect/cstruct/cstruct.py b/dissect/cstruct/cstruct.py
index d48d242..a21f096 100644
--- a/dissect/cstruct/cstruct.py
+++ b/dissect/cstruct/cstruct.py
@@ -360,6 +360,9 @@ class cstruct:
         else:
             if type_.size is None:
                 raise ValueError(f"Cannot create array of dynamic type: {type_.__name__}")
+            if isinstance(num_entries, int):
+                # An array can't have a negative number of entries, e.g. if the expression evaluated to a negative value
+                num_entries = max(0, num_entries)
             size = num_entries * type_.size
 
         name = f"{type_.__name__}[]" if null_terminated else f"{type_.__name__}[{num_entries}]"
-- 
2.43.0


From fdd8d0587a602307e2033c20c8bb9a1f4d2d5832 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:16 +0000
Subject: [PATCH 27/42] fix: let fields take precedence over constants of the
 same name in array lengths

---
 dissect/cstruct/parser.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index da97853..8a3f188 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -224,7 +224,7 @@ class TokenParser(Parser):
                 tokens.consume()
                 break
 
-            field = self._parse_field(tokens)
+            field = self._parse_field(tokens, fields)
             fields.append(field)
 
         if register:
@@ -271,7 +271,7 @@ class TokenParser(Parser):
         d = ast.literal_eval(m.group(2))
         self.cstruct.lookups[m.group(1)] = {self.cstruct.consts[k]: v for k, v in d.items()}
 
-    def _parse_field(self, tokens: TokenConsumer) -> Field:
+    def _parse_field(self, tokens: TokenConsumer, previous_fields: list[Field]) -> Field:
         type_ = None
         if tokens.next == self.TOK.IDENTIFIER:
             type_ = self.cstruct.resolve(self._identifier(tokens))
@@ -285,12 +285,14 @@ class TokenParser(Parser):
             raise ParserError(f"line {self._lineno(tokens.next)}: expected name")
         nametok = tokens.consume()
 
-        type_, name, bits = self._parse_field_type(type_, nametok.value)
+        type_, name, bits = self._parse_field_type(type_, nametok.value, {field.name for field in previous_fields})
 
         tokens.eol()
         return Field(name.strip(), type_, bits)
 
-    def _parse_field_type(self, type_: type[BaseType], name: str) -> tuple[type[BaseType], str, int | None]:
+    def _parse_field_type(
+        self, type_: type[BaseType], name: str, previous_fields: set[str | None] = frozenset()
+    ) -> tuple[type[BaseType], str, int | None]:
         pattern = self.TOK.patterns[self.TOK.NAME]
         # Dirty trick because the regex expects a ; but we don't want it to be part of the value
         d = pattern.match(name + ";").groupdict()
@@ -311,10 +313,12 @@ class TokenParser(Parser):
                     count = None
                 else:
                     count = Expression(self.cstruct, count)
-                    try:
-                        count = count.evaluate()
-                    except Exception:
-                        pass
+                    # Fields take precedence over constants of the same name
+                    if previous_fields.isdisjoint(count.tokens):
+                        try:
+                            count = count.evaluate()
+                        except Exception:
+                            pass
 
                 if issubclass(type_, BaseArray) and count is None:
                     raise ParserError("Depth required for multi-dimensional array")
-- 
2.43.0


From 016a1c77084f350c70acd2d3ee8db10f474dff2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:28:38 +0000
Subject: [PATCH 28/42] fix: keep union members coherent after a nested union
 rejects an assignment

---
 dissect/cstruct/types/structure.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index bc96e1e..5e5c06a 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -612,10 +612,7 @@ class Union(Structure, metaclass=UnionMetaType):
         self._rebuild(attr)
 
     def _rebuild(self, attr: str) -> None:
-        if (cur_buf := getattr(self, "_buf", None)) is None:
-            cur_buf = b"\x00" * self.__class__.size
-
-        buf = io.BytesIO(cur_buf)
+        buf = io.BytesIO(self._current_buf())
         field = self.__class__.lookup[attr]
         if field.offset:
             buf.seek(field.offset)
@@ -625,14 +622,22 @@ class Union(Structure, metaclass=UnionMetaType):
 
         try:
             field.type._write(buf, value)
-            cur_buf = buf.getvalue()
+            object.__setattr__(self, "_buf", buf.getvalue())
         finally:
             # Also restore all values if the new value could not be written
-            object.__setattr__(self, "_buf", cur_buf)
-            self._update()
+            self._restore()
+
+    def _current_buf(self) -> bytes:
+        if (buf := getattr(self, "_buf", None)) is None:
+            buf = b"\x00" * self.__class__.size
+        return buf
 
-            # (Re-)proxify all values
-            self._proxify()
+    def _restore(self) -> None:
+        object.__setattr__(self, "_buf", self._current_buf())
+        self._update()
+
+        # (Re-)proxify all values
+        self._proxify()
 
     def _update(self) -> None:
         result, sizes = self.__class__._read_fields(UnionBuffer(self._buf, self._stream))
@@ -701,7 +706,12 @@ class UnionProxy:
         return getattr(self.__target__, attr)
 
     def __setattr__(self, attr: str, value: Any) -> None:
-        setattr(self.__target__, attr, value)
+        try:
+            setattr(self.__target__, attr, value)
+        except Exception:
+            # A nested union rejected the value, so restore all values
+            self.__union__._restore()
+            raise
         self.__union__._rebuild(self.__attr__)
 
 
-- 
2.43.0


From 67a18ba3fa0e0a93e56de9bb2489e1256b65cee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:40:21 +0000
Subject: [PATCH 29/42] fix: allow anonymous enums without whitespace before
 the colon or brace

---
 dissect/cstruct/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 8a3f188..fed9249 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -58,7 +58,7 @@ class TokenParser(Parser):
         TOK.add(r"typedef(?=\s)", "TYPEDEF")
         TOK.add(r"(?:struct|union)(?=\s|{)", "STRUCT")
         TOK.add(
-            r"(?P<enumtype>enum|flag)\s+(?P<name>[^\s:{;]+)?\s*(:\s"
+            r"(?P<enumtype>enum|flag)(?:\s+(?P<name>[^\s:{;]+))?\s*(:\s"
             r"*(?P<type>[^{;]+?)\s*)?\{(?P<values>[^}]+)\}\s*(?=;)",
             "ENUM",
         )
-- 
2.43.0


From 73e634a48e567a05ac733268693f1f2e3c1ee7fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:50 +0000
Subject: [PATCH 30/42] fix: don't treat structure and pointer values as
 streams when constructing from a single value

---
 dissect/cstruct/types/base.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/base.py b/dissect/cstruct/types/base.py
index eae7bc6..0156679 100644
--- a/dissect/cstruct/types/base.py
+++ b/dissect/cstruct/types/base.py
@@ -292,7 +292,8 @@ class UnionBuffer(BytesIO):
 
 
 def _is_readable_type(value: object) -> bool:
-    return hasattr(value, "read")
+    # Values of our own types are never streams, even if they have a field (or point to a structure) with such a name
+    return not isinstance(value, BaseType) and hasattr(value, "read")
 
 
 def _is_buffer_type(value: object) -> bool:
-- 
2.43.0


From a527a4edcf3b64140e8baa8307fba8b886f26b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:44 +0000
Subject: [PATCH 31/42] fix: continue behind the largest member after parsing a
 dynamic union

---
 dissect/cstruct/types/structure.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 5e5c06a..a188472 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -506,9 +506,11 @@ class UnionMetaType(StructureMetaType):
         if cls.size is None:
             start = stream.tell()
             result, sizes = cls._read_fields(stream, context)
-            size = stream.tell() - start
+            # The union is as large as its largest member, which isn't necessarily the last one read
+            size = max(((field.offset or 0) + sizes[field._name] for field in cls.__fields__), default=0)
             stream.seek(start)
             buf = stream.read(size)
+            stream.seek(start + size)
         else:
             result = {}
             sizes = {}
-- 
2.43.0


From 3bad2adb9c69aa3fba4a3cd3208aedea6ce3fd93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:38 +0000
Subject: [PATCH 32/42] fix: hash equal enum and flag values equally

---
 dissect/cstruct/types/enum.py | 2 +-
 dissect/cstruct/types/flag.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/types/enum.py b/dissect/cstruct/types/enum.py
index 5b83056..6a14162 100644
--- a/dissect/cstruct/types/enum.py
+++ b/dissect/cstruct/types/enum.py
@@ -196,7 +196,7 @@ class Enum(BaseType, IntEnum, metaclass=EnumMetaType):
         return not self.__eq__(value)
 
     def __hash__(self) -> int:
-        return hash((self.__class__, self.name, self.value))
+        return hash((self.__class__, self.value))
 
     @classmethod
     def _missing_(cls, value: int) -> Self:
diff --git a/dissect/cstruct/types/flag.py b/dissect/cstruct/types/flag.py
index 6740591..1636ea5 100644
--- a/dissect/cstruct/types/flag.py
+++ b/dissect/cstruct/types/flag.py
@@ -69,4 +69,4 @@ class Flag(BaseType, IntFlag, metaclass=EnumMetaType):
         return not self.__eq__(value)
 
     def __hash__(self) -> int:
-        return hash((self.__class__, self.name, self.value))
+        return hash((self.__class__, self.value))
-- 
2.43.0


From 443581b000fe173b571f231db8dc14ba05806833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:27 +0000
Subject: [PATCH 33/42] fix: combine values of flags that have duplicate
 members in any order

---
 dissect/cstruct/types/enum.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/dissect/cstruct/types/enum.py b/dissect/cstruct/types/enum.py
index 6a14162..2f055e5 100644
--- a/dissect/cstruct/types/enum.py
+++ b/dissect/cstruct/types/enum.py
@@ -113,6 +113,8 @@ def _fix_alias_members(cls: type[Enum]) -> None:
     for name, member in cls._member_map_.items():
         if name != member.name:
             new_member = int.__new__(cls, member.value)
+            # Includes what Python itself keeps track of, such as the order of definition
+            new_member.__dict__.update(member.__dict__)
             new_member._name_ = name
             new_member._value_ = member.value
 
-- 
2.43.0


From fa9ad9e8eaa5cff9196d07e589e401a4c4f91ecd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:47:35 +0000
Subject: [PATCH 34/42] fix: parse a single char bit field from bytes instead
 of assigning the bytes to it

---
 dissect/cstruct/types/structure.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index a188472..54a293d 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -74,6 +74,7 @@ class StructureMetaType(MetaType):
             and len(args) == len(cls.__fields__) == 1
             and isinstance(args[0], bytes)
             and issubclass(cls.__fields__[0].type, bytes)
+            and not cls.__fields__[0].bits
             and len(args[0]) == cls.__fields__[0].type.size
         ):
             # Shortcut for single char/bytes type
-- 
2.43.0


From 7129599dbb28d23d75d38b60038791876511e641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:01 +0000
Subject: [PATCH 35/42] fix: read arrays of custom types in generated readers

---
 dissect/cstruct/compiler.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 20af870..326a59c 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -187,9 +187,11 @@ class _ReadSourceGenerator:
                 yield from align_to_field(field)
                 yield from self._generate_structure(field)
 
-            # Array of structures and multi-dimensional arrays
+            # Array of structures, multi-dimensional arrays and arrays of types we can't unpack ourselves
             elif issubclass(field_type, (Array, CharArray, WcharArray)) and (
-                issubclass(field_type.type, Structure) or issubclass(field_type.type, BaseArray) or is_dynamic
+                issubclass(field_type.type, (Structure, BaseArray))
+                or is_dynamic
+                or not issubclass(field_type.type, SUPPORTED_TYPES)
             ):
                 yield from flush()
                 yield from align_to_field(field)
-- 
2.43.0


From 8dae116a0bcd559f66fb42f21b67da606c33df18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:07:39 +0000
Subject: [PATCH 36/42] fix: bit fields at a different offset start a new unit
 when reading and writing too

The layout starts a new unit for a bit field at a different offset (manually set, or due to the
alignment of a type such as uint24), but the readers and the writer kept using the previous unit.
---
 dissect/cstruct/compiler.py        |  7 ++++++-
 dissect/cstruct/types/structure.py | 11 +++++++++++
 2 files changed, 17 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/compiler.py b/dissect/cstruct/compiler.py
index 326a59c..6151aa2 100644
--- a/dissect/cstruct/compiler.py
+++ b/dissect/cstruct/compiler.py
@@ -150,13 +150,18 @@ class _ReadSourceGenerator:
                 current_block[:] = []
 
         def align_to_field(field: Field) -> Iterator[str]:
-            nonlocal current_offset
+            nonlocal current_offset, bits_remaining
 
             if field.offset is not None and field.offset != current_offset:
                 # If a field has a set offset and it's not the same as the current tracked offset, seek to it
                 yield f"stream.seek(o + {field.offset})"
                 current_offset = field.offset
 
+                if bits_remaining:
+                    # Bits that remain of another offset are not part of this field
+                    yield "bit_reader.reset()"
+                    bits_remaining = 0
+
             if self.align and field.offset is None:
                 yield f"stream.seek(-stream.tell() & ({field.alignment} - 1), {io.SEEK_CUR})"
 
diff --git a/dissect/cstruct/types/structure.py b/dissect/cstruct/types/structure.py
index 54a293d..d2aa4b1 100644
--- a/dissect/cstruct/types/structure.py
+++ b/dissect/cstruct/types/structure.py
@@ -265,6 +265,8 @@ class StructureMetaType(MetaType):
                 # Field is at a specific offset, either alligned or added that way
                 offset = struct_start + field.offset
                 stream.seek(offset)
+                # Bits that remain of another offset are not part of this field
+                bit_buffer.reset()
 
             if cls.__align__ and field.offset is None:
                 # Previous field was dynamically sized and we need to align
@@ -327,6 +329,15 @@ class StructureMetaType(MetaType):
 
             offset = stream.tell()
 
+            if (
+                bit_buffer._type
+                and field.offset is not None
+                and offset + bit_buffer._type.size < struct_start + field.offset
+            ):
+                # Bit field of the same type, but it's at a different offset due to alignment or a manual offset
+                bit_buffer.flush()
+                offset = stream.tell()
+
             if field.offset is not None and offset < struct_start + field.offset:
                 # Field is at a specific offset, either alligned or added that way
                 stream.write(b"\x00" * (struct_start + field.offset - offset))
-- 
2.43.0


From 4c89e8dd00cda3a58c6ec25af124350c408aa31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:56 +0000
Subject: [PATCH 37/42] fix: allow any whitespace and comments inside array
 brackets in definitions

---
 dissect/cstruct/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index fed9249..3fa52d9 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -65,7 +65,7 @@ class TokenParser(Parser):
         TOK.add(r"(?<=})\s*(?P<defs>(?:[a-zA-Z0-9_]+\s*,\s*)+[a-zA-Z0-9_]+)\s*(?=;)", "DEFS")
         TOK.add(
             r"(?P<name>(?:\*\s*)*[a-zA-Z0-9_]+)(?:\s*:\s*(?P<bits>\d+))?"
-            r"(?:\s*\[(?P<count>[^;\n]*(?:\][^\S\n]*\n\s*\[[^;\n]*)*)\])?\s*(?=;)",
+            r"(?:\s*\[(?P<count>[^;\[\]]*(?:\]\s*\[[^;\[\]]*)*)\])?\s*(?=;)",
             "NAME",
         )
         TOK.add(r"[a-zA-Z_][a-zA-Z0-9_]*", "IDENTIFIER")
@@ -309,6 +309,7 @@ class TokenParser(Parser):
             counts = re.split(r"\]\s*\[", count_expression)
 
             for count in reversed(counts):
+                count = " ".join(count.split())
                 if count == "":
                     count = None
                 else:
-- 
2.43.0


From 9766077cb35b09166dbb4718da17c76da6dad7de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:33 +0000
Subject: [PATCH 38/42] fix: accept any whitespace between the tokens of an
 expression

---
 dissect/cstruct/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/expression.py b/dissect/cstruct/expression.py
index d029e11..5fd4600 100644
--- a/dissect/cstruct/expression.py
+++ b/dissect/cstruct/expression.py
@@ -145,7 +145,7 @@ class ExpressionTokenizer:
                 self.tokens.append(">>")
             elif self.match(expected="<", append=False) and self.match(expected="<", append=False):
                 self.tokens.append("<<")
-            elif self.match(expected={" ", "\t"}, append=False):
+            elif self.match(expected={" ", "\t", "\n", "\r", "\f", "\v"}, append=False):
                 continue
             else:
                 raise ExpressionTokenizerError(
-- 
2.43.0


From d9d3b91497c7d6197c7564863fb0050579c2ea0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:55 +0000
Subject: [PATCH 39/42] fix: allow newlines inside sizeof in enum members

---
 dissect/cstruct/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 3fa52d9..433a0ee 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -116,8 +116,10 @@ class TokenParser(Parser):
             nextval = 1
 
         values = {}
+        # Type names can span lines too, e.g. sizeof(unsigned\nint)
+        members = re.sub(r"sizeof\s*\([^)]*\)", lambda m: " ".join(m[0].split()), d["values"])
         # Members are separated by a comma or, if a line starts with a new member, by a newline
-        for line in re.split(r"(?<=[\w)])\s*[\r\n]\s*(?=[a-zA-Z_])", d["values"]):
+        for line in re.split(r"(?<=[\w)])\s*[\r\n]\s*(?=[a-zA-Z_])", members):
             for v in line.split(","):
                 key, _, val = v.partition("=")
                 key = key.strip()
-- 
2.43.0


From 5028034dc7ad045dff8ba7123d519c308eb038b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 40/42] Revert "fix: accept any whitespace between the tokens
 of an expression"

This reverts commit 9766077cb35b09166dbb4718da17c76da6dad7de.
---
 dissect/cstruct/expression.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/dissect/cstruct/expression.py b/dissect/cstruct/expression.py
index 5fd4600..d029e11 100644
--- a/dissect/cstruct/expression.py
+++ b/dissect/cstruct/expression.py
@@ -145,7 +145,7 @@ class ExpressionTokenizer:
                 self.tokens.append(">>")
             elif self.match(expected="<", append=False) and self.match(expected="<", append=False):
                 self.tokens.append("<<")
-            elif self.match(expected={" ", "\t", "\n", "\r", "\f", "\v"}, append=False):
+            elif self.match(expected={" ", "\t"}, append=False):
                 continue
             else:
                 raise ExpressionTokenizerError(
-- 
2.43.0


From 68a0592c21f77d8e04453abcc2e0560bb9f5cbfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:42 +0000
Subject: [PATCH 41/42] Revert "fix: allow any whitespace and comments inside
 array brackets in definitions"

This reverts commit 4c89e8dd00cda3a58c6ec25af124350c408aa31e.
---
 dissect/cstruct/parser.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/dissect/cstruct/parser.py b/dissect/cstruct/parser.py
index 433a0ee..5f5970e 100644
--- a/dissect/cstruct/parser.py
+++ b/dissect/cstruct/parser.py
@@ -65,7 +65,7 @@ class TokenParser(Parser):
         TOK.add(r"(?<=})\s*(?P<defs>(?:[a-zA-Z0-9_]+\s*,\s*)+[a-zA-Z0-9_]+)\s*(?=;)", "DEFS")
         TOK.add(
             r"(?P<name>(?:\*\s*)*[a-zA-Z0-9_]+)(?:\s*:\s*(?P<bits>\d+))?"
-            r"(?:\s*\[(?P<count>[^;\[\]]*(?:\]\s*\[[^;\[\]]*)*)\])?\s*(?=;)",
+            r"(?:\s*\[(?P<count>[^;\n]*(?:\][^\S\n]*\n\s*\[[^;\n]*)*)\])?\s*(?=;)",
             "NAME",
         )
         TOK.add(r"[a-zA-Z_][a-zA-Z0-9_]*", "IDENTIFIER")
@@ -311,7 +311,6 @@ class TokenParser(Parser):
             counts = re.split(r"\]\s*\[", count_expression)
 
             for count in reversed(counts):
-                count = " ".join(count.split())
                 if count == "":
                     count = None
                 else:
-- 
2.43.0


From 4a20d76ebe21e6abc0ffda0a58b32131427a5426 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:26 +0000
Subject: [PATCH 42/42] fix: pad or reject strings that don't fit a fixed-size
 character array

---
 dissect/cstruct/types/char.py  |  7 +++++++
 dissect/cstruct/types/wchar.py | 10 +++++++++-
 2 files changed, 16 insertions(+), 1 deletion(-)

diff --git a/dissect/cstruct/types/char.py b/dissect/cstruct/types/char.py
index a7364b4..30d9eee 100644
--- a/dissect/cstruct/types/char.py
+++ b/dissect/cstruct/types/char.py
@@ -2,6 +2,7 @@ from __future__ import annotations
 
 from typing import TYPE_CHECKING, Any, BinaryIO
 
+from dissect.cstruct.exceptions import ArraySizeError
 from dissect.cstruct.types.base import EOF, BaseArray, BaseType
 
 if TYPE_CHECKING:
@@ -29,6 +30,12 @@ class CharArray(bytes, BaseArray):
 
         if cls.null_terminated:
             return stream.write(data + b"\x00")
+
+        if not cls.dynamic:
+            if (actual_size := len(data)) > cls.num_entries:
+                raise ArraySizeError(f"Expected static array size {cls.num_entries}, got {actual_size} instead.")
+            # A shorter string is padded to the size of the array
+            data = data.ljust(cls.num_entries, b"\x00")
         return stream.write(data)
 
 
diff --git a/dissect/cstruct/types/wchar.py b/dissect/cstruct/types/wchar.py
index 1cd8822..149954c 100644
--- a/dissect/cstruct/types/wchar.py
+++ b/dissect/cstruct/types/wchar.py
@@ -3,6 +3,7 @@ from __future__ import annotations
 import sys
 from typing import Any, BinaryIO, ClassVar
 
+from dissect.cstruct.exceptions import ArraySizeError
 from dissect.cstruct.types.base import EOF, BaseArray, BaseType
 
 
@@ -23,7 +24,14 @@ class WcharArray(str, BaseArray):
     def _write(cls, stream: BinaryIO, data: str) -> int:
         if cls.null_terminated:
             data += "\x00"
-        return stream.write(data.encode(Wchar.__encoding_map__[cls.cs.endian]))
+        data = data.encode(Wchar.__encoding_map__[cls.cs.endian])
+
+        if not cls.dynamic:
+            if (actual_size := len(data)) > cls.size:
+                raise ArraySizeError(f"Expected static array size {cls.num_entries}, got {actual_size // 2} instead.")
+            # A shorter string is padded to the size of the array
+            data = data.ljust(cls.size, b"\x00")
+        return stream.write(data)
 
 
 class Wchar(str, BaseType):
-- 
2.43.0

