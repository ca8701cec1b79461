From d44d40782c6b82827e6adff1a438286991941e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:33 +0000
Subject: [PATCH 01/61] fix: align and size optional fields by their flag in
 the Python codec

Optional fields of types smaller than four bytes were placed at the
alignment of the value, not of the u32 flag that precedes it. Struct size
and block alignment ignored the flag as well.
---
 prophy/composite.py  |  8 ++++++--
 prophy/generators.py | 10 +++++-----
 2 files changed, 11 insertions(+), 7 deletions(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index bcf498d..8f9d6e3 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -10,6 +10,10 @@ def distance_to_next_multiply(number, alignment):
     return (alignment - remainer) % alignment
 
 
+def field_alignment(type_):
+    return type_._OPTIONAL_ALIGNMENT if type_._OPTIONAL else type_._ALIGNMENT
+
+
 def field_to_string(name, type_, value):
     single_indent_level = " " * 2
 
@@ -60,7 +64,7 @@ class struct(_composite_base):
         data = b""
 
         for field in self._descriptor:
-            data += (self._get_padding(len(data), field.type._ALIGNMENT))
+            data += (self._get_padding(len(data), field_alignment(field.type)))
             data += field.encode_fcn(self, field.type, getattr(self, field.name, None), endianness)
 
             if field.type._PARTIAL_ALIGNMENT:
@@ -78,7 +82,7 @@ class struct(_composite_base):
         start_pos = pos
 
         for field in self._descriptor:
-            pos += self._get_padding_size(pos, field.type._ALIGNMENT)
+            pos += self._get_padding_size(pos, field_alignment(field.type))
             try:
                 pos += field.decode_fcn(self, field.name, field.type, data, pos, endianness, len_hints)
             except ProphyError as e:
diff --git a/prophy/generators.py b/prophy/generators.py
index 0b3f72c..5192711 100644
--- a/prophy/generators.py
+++ b/prophy/generators.py
@@ -1,7 +1,7 @@
 import collections
 
 from .base_array import base_array
-from .composite import codec_kind, distance_to_next_multiply, struct_packed
+from .composite import codec_kind, distance_to_next_multiply, field_alignment, struct_packed
 from .descriptor import DescriptorField
 from .exception import ProphyError
 from .scalar import u32
@@ -206,20 +206,20 @@ class struct_generator(_composite_generator_base):
         if not cls._descriptor:
             cls._ALIGNMENT = 1
         else:
-            cls._ALIGNMENT = max((t._OPTIONAL_ALIGNMENT if t._OPTIONAL else t._ALIGNMENT) for t in cls._types())
+            cls._ALIGNMENT = max(field_alignment(t) for t in cls._types())
 
         alignment = 1
         for type_ in reversed(list(cls._types())):
             if issubclass(type_, (base_array, bytes)) and type_._DYNAMIC:
                 type_._PARTIAL_ALIGNMENT = alignment
                 alignment = 1
-            alignment = max(type_._ALIGNMENT, alignment)
+            alignment = max(field_alignment(type_), alignment)
         if not issubclass(cls, struct_packed) and cls._descriptor:
 
             def get_padded_sizes():
                 types = list(cls._types())
-                sizes = [tp._SIZE for tp in types]
-                alignments = [tp._ALIGNMENT for tp in types[1:]] + [cls._ALIGNMENT]
+                sizes = [(tp._OPTIONAL_SIZE if tp._OPTIONAL else tp._SIZE) for tp in types]
+                alignments = [field_alignment(tp) for tp in types[1:]] + [cls._ALIGNMENT]
                 offset = 0
 
                 for size, alignment in zip(sizes, alignments):
-- 
2.43.0


From 773a803cb9d8b9e67d15de13b2fcef42083a8d44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:13:33 +0000
Subject: [PATCH 02/61] fix: encode and print unset bytes fields on Python 3

The default of a bytes field without fixed size is an empty text string,
which could not be padded with bytes and printed as a single quote.
---
 prophy/composite.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index 8f9d6e3..944d5be 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -25,7 +25,7 @@ def field_to_string(name, type_, value):
     elif issubclass(type_, (struct, union)):
         return "%s {\n%s}\n" % (name, indent(str(value)))
     elif issubclass(type_, bytes):
-        return "%s: %s\n" % (name, repr_bytes(value))
+        return "%s: %s\n" % (name, repr_bytes(value or b""))
     elif issubclass(type_, enum):
         return "%s: %s\n" % (name, type_._int_to_name[value])
     else:
@@ -216,7 +216,7 @@ def bytes_(**kwargs):
 
         @staticmethod
         def _encode(value):
-            return value.ljust(size, b'\x00')
+            return (value or b"").ljust(size, b'\x00')
 
         @staticmethod
         def _decode(data, pos, len_hint):
-- 
2.43.0


From 50961b36fe1ba2d77808896ea70ae57ff94eab77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:32 +0000
Subject: [PATCH 03/61] fix: align the fields following a nested dynamic struct
 in the Python codec

Only dynamic arrays and bytes ended a block of fields. A nested struct with
dynamic contents did not, so the fields after it were not aligned to the
biggest alignment among them. The alignment is kept per field, because a
struct type may be used in many places.
---
 prophy/composite.py  | 8 ++++----
 prophy/descriptor.py | 4 +++-
 prophy/generators.py | 9 ++++++---
 3 files changed, 13 insertions(+), 8 deletions(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index 944d5be..8ac6f18 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -67,8 +67,8 @@ class struct(_composite_base):
             data += (self._get_padding(len(data), field_alignment(field.type)))
             data += field.encode_fcn(self, field.type, getattr(self, field.name, None), endianness)
 
-            if field.type._PARTIAL_ALIGNMENT:
-                data += self._get_padding(len(data), field.type._PARTIAL_ALIGNMENT)
+            if field.partial_alignment:
+                data += self._get_padding(len(data), field.partial_alignment)
 
         data += self._get_padding(len(data), self._ALIGNMENT)
 
@@ -87,8 +87,8 @@ class struct(_composite_base):
                 pos += field.decode_fcn(self, field.name, field.type, data, pos, endianness, len_hints)
             except ProphyError as e:
                 raise ProphyError("{}: {}".format(self.__class__.__name__, e))
-            if field.type._PARTIAL_ALIGNMENT:
-                pos += self._get_padding_size(pos, field.type._PARTIAL_ALIGNMENT)
+            if field.partial_alignment:
+                pos += self._get_padding_size(pos, field.partial_alignment)
 
         pos += self._get_padding_size(pos, self._ALIGNMENT)
 
diff --git a/prophy/descriptor.py b/prophy/descriptor.py
index 250d631..650f3df 100644
--- a/prophy/descriptor.py
+++ b/prophy/descriptor.py
@@ -11,7 +11,7 @@ FieldDescriptor.__repr__ = lambda self: "<{}, {!r}, {!r}>".format(*self)
 
 class DescriptorField(renew.Mold):
     _cls_namespace = "prophy.descriptor"
-    _extra_slots = "encode_fcn", "decode_fcn"
+    _extra_slots = "encode_fcn", "decode_fcn", "partial_alignment"
 
     def __init__(self, name, type, discriminator=None):
         self.name = name
@@ -21,6 +21,8 @@ class DescriptorField(renew.Mold):
         # their value don't affect __eq__ & __ne__ result
         self.encode_fcn = None
         self.decode_fcn = None
+        # Alignment of the fields following a dynamic one, set in add_attributes
+        self.partial_alignment = None
 
     def __repr__(self):
         is_union_descriptor = self.discriminator is not None
diff --git a/prophy/generators.py b/prophy/generators.py
index 5192711..89a3be1 100644
--- a/prophy/generators.py
+++ b/prophy/generators.py
@@ -209,9 +209,12 @@ class struct_generator(_composite_generator_base):
             cls._ALIGNMENT = max(field_alignment(t) for t in cls._types())
 
         alignment = 1
-        for type_ in reversed(list(cls._types())):
-            if issubclass(type_, (base_array, bytes)) and type_._DYNAMIC:
-                type_._PARTIAL_ALIGNMENT = alignment
+        for field in reversed(cls._descriptor):
+            type_ = field.type
+            if type_._DYNAMIC:
+                field.partial_alignment = alignment
+                if issubclass(type_, (base_array, bytes)):
+                    type_._PARTIAL_ALIGNMENT = alignment
                 alignment = 1
             alignment = max(field_alignment(type_), alignment)
         if not issubclass(cls, struct_packed) and cls._descriptor:
-- 
2.43.0


From 3d148b32760ab0ce7b4db0391105b7b36a7eb0e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:16:33 +0000
Subject: [PATCH 04/61] fix: decode optional enums without an enumerator equal
 to one

A set optional enum was assigned True before its value was decoded, which
was rejected unless the enum had an enumerator of value 1.
---
 prophy/descriptor.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/prophy/descriptor.py b/prophy/descriptor.py
index 650f3df..5c3dfe4 100644
--- a/prophy/descriptor.py
+++ b/prophy/descriptor.py
@@ -103,8 +103,9 @@ def decode_optional(parent, name, type_, data, pos, endianness, len_hints):
     value, _ = type_._optional_type._decode(data, pos, endianness)
     opt_alignment = type_._OPTIONAL_ALIGNMENT
     if value:
-        setattr(parent, name, True)
         sub_type = type_.__bases__[0]
+        if codec_kind.is_composite(sub_type):
+            setattr(parent, name, True)
         pos += opt_alignment
         return opt_alignment + type_._decode(parent, name, sub_type, data, pos, endianness, len_hints)
     else:
-- 
2.43.0


From 3266ff9fe99810cde12c6a04ac5323143ef5093d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:19:35 +0000
Subject: [PATCH 05/61] fix: refuse floating point values which cannot be
 encoded

A number too big for its field was accepted on assignment and raised
OverflowError when the message was encoded.
---
 prophy/scalar.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prophy/scalar.py b/prophy/scalar.py
index afd157a..b20b922 100644
--- a/prophy/scalar.py
+++ b/prophy/scalar.py
@@ -65,6 +65,10 @@ def float_decorator(size, id_):
         def check(value):
             if not isinstance(value, (float, int, long)):
                 raise ProphyError("not a float")
+            try:
+                struct.pack('<' + id_, value)
+            except (OverflowError, struct.error):
+                raise ProphyError("value: {} out of {}B float's bounds".format(value, size))
             return value
 
         cls._check = check
-- 
2.43.0


From a489fc9c61e17bfef297d6d279743e0bbd5c83ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:41 +0000
Subject: [PATCH 06/61] fix: refuse bad array operations with ProphyError and
 without side effects

Extended slices ignored their step. extend() with an iterator, with itself
or with one wrong element left the array partly changed or never ended.
add() kept the element whose attributes were refused. An array bound to a
narrow sizer accepted more elements than it could encode. Wrong arguments
now raise ProphyError, also where they used to raise a plain TypeError.
---
 prophy/base_array.py     | 24 ++++++++++++++++++++++++
 prophy/composite.py      |  3 +++
 prophy/composite_base.py |  3 ++-
 prophy/container.py      | 29 +++++++++++++++++++++++------
 prophy/exception.py      |  4 ++++
 prophy/generators.py     |  1 +
 prophy/scalar.py         |  1 +
 7 files changed, 58 insertions(+), 7 deletions(-)

diff --git a/prophy/base_array.py b/prophy/base_array.py
index a353c5c..1e5b5b6 100644
--- a/prophy/base_array.py
+++ b/prophy/base_array.py
@@ -1,6 +1,14 @@
+from prophy.exception import ProphyError, ProphyTypeError
 from prophy.scalar import prophy_data_object
 
 
+def listed(values):
+    try:
+        return list(values)
+    except TypeError:
+        raise ProphyTypeError("object of type '{}' has no len()".format(type(values).__name__))
+
+
 class base_array(prophy_data_object):
     __slots__ = ['_values']
 
@@ -13,6 +21,22 @@ class base_array(prophy_data_object):
     def __getslice__(self, start, stop):
         return self._values[start:stop]
 
+    def __setitem__(self, idx, value):
+        raise ProphyError("'{}' object does not support item assignment".format(type(self).__name__))
+
+    def __delitem__(self, idx):
+        raise ProphyError("'{}' object does not support item deletion".format(type(self).__name__))
+
+    def _set_stepped_slice(self, idx, values):
+        values = listed(values)
+        if len(self._values[idx]) != len(values):
+            raise ProphyError("setting slice with different length collection")
+        self._values[idx] = list(map(self._TYPE._check, values))
+
+    def _check_sizer(self, new_len):
+        if self._SIZER_MAX is not None and new_len > self._SIZER_MAX:
+            raise ProphyError("exceeded array sizer limit")
+
     def __len__(self):
         return len(self._values)
 
diff --git a/prophy/composite.py b/prophy/composite.py
index 8ac6f18..b194fbf 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -201,6 +201,7 @@ def bytes_(**kwargs):
         _ALIGNMENT = 1
         _BOUND = bound
         _BOUND_SHIFT = shift
+        _SIZER_MAX = None
         _PARTIAL_ALIGNMENT = None
         _is_prophy_object = True
 
@@ -210,6 +211,8 @@ def bytes_(**kwargs):
                 raise ProphyError("not a bytes")
             if size and len(value) > size:
                 raise ProphyError("too long")
+            if _bytes._SIZER_MAX is not None and len(value) > _bytes._SIZER_MAX:
+                raise ProphyError("too long for its sizer")
             if size and not bound:
                 return value.ljust(size, b'\x00')
             return value
diff --git a/prophy/composite_base.py b/prophy/composite_base.py
index 7f129d4..29ff806 100644
--- a/prophy/composite_base.py
+++ b/prophy/composite_base.py
@@ -1,3 +1,4 @@
+from .exception import ProphyTypeError
 from .scalar import prophy_data_object
 
 
@@ -15,7 +16,7 @@ class _composite_base(prophy_data_object):
     @classmethod
     def validate_copy_from(cls, rhs):
         if not isinstance(rhs, cls):
-            raise TypeError("Parameter to copy_from must be instance of same class.")
+            raise ProphyTypeError("Parameter to copy_from must be instance of same class.")
 
     def _copy_implementation(self, other):
         " To be overrided in derived class "
diff --git a/prophy/container.py b/prophy/container.py
index 8811bd4..2175def 100644
--- a/prophy/container.py
+++ b/prophy/container.py
@@ -1,4 +1,4 @@
-from .base_array import base_array
+from .base_array import base_array, listed
 from .composite import struct, union
 from .exception import ProphyError
 from .six import xrange
@@ -44,13 +44,16 @@ class fixed_scalar_array(base_array):
         self._values = [self._TYPE._DEFAULT] * self._max_len
 
     def __setitem__(self, idx, value):
-        if isinstance(idx, slice):
+        if isinstance(idx, slice) and idx.step not in (None, 1):
+            self._set_stepped_slice(idx, value)
+        elif isinstance(idx, slice):
             self.__setslice__(idx.start, idx.stop, value)
         else:
             value = self._TYPE._check(value)
             self._values[idx] = value
 
     def __setslice__(self, start, stop, values):
+        values = listed(values)
         if len(self._values[start:stop]) != len(values):
             raise ProphyError("setting slice with different length collection")
         self._values[start:stop] = map(self._TYPE._check, values)
@@ -76,34 +79,42 @@ class bound_scalar_array(base_array):
         value = self._TYPE._check(value)
         if self._max_len and len(self) == self._max_len:
             raise ProphyError("exceeded array limit")
+        self._check_sizer(len(self) + 1)
         self._values.append(value)
 
     def insert(self, idx, value):
         value = self._TYPE._check(value)
         if self._max_len and len(self) == self._max_len:
             raise ProphyError("exceeded array limit")
+        self._check_sizer(len(self) + 1)
         self._values.insert(idx, value)
 
     def extend(self, values):
         if not values:
             return
+        values = listed(values)
         if self._max_len and len(self) + len(values) > self._max_len:
             raise ProphyError("exceeded array limit")
-        self._values.extend(map(self._TYPE._check, values))
+        self._check_sizer(len(self) + len(values))
+        self._values.extend(list(map(self._TYPE._check, values)))
 
     def remove(self, elem):
         self._values.remove(elem)
 
     def __setitem__(self, idx, value):
-        if isinstance(idx, slice):
+        if isinstance(idx, slice) and idx.step not in (None, 1):
+            self._set_stepped_slice(idx, value)
+        elif isinstance(idx, slice):
             self.__setslice__(idx.start, idx.stop, value)
         else:
             value = self._TYPE._check(value)
             self._values[idx] = value
 
     def __setslice__(self, start, stop, values):
+        values = listed(values)
         if self._max_len and len(self) + len(values) - len(self._values[start:stop]) > self._max_len:
             raise ProphyError("exceeded array limit")
+        self._check_sizer(len(self) + len(values) - len(self._values[start:stop]))
         self._values[start:stop] = map(self._TYPE._check, values)
 
     def __delitem__(self, idx):
@@ -154,26 +165,31 @@ class bound_composite_array(base_array):
     def add(self, **attributes):
         if self._max_len and len(self) == self._max_len:
             raise ProphyError("exceeded array limit")
+        self._check_sizer(len(self) + 1)
 
         new_element = self._TYPE()
-        self._values.append(new_element)
         for name, value in attributes.items():
             attr = getattr(new_element, name)
             if isinstance(attr, base_array):
                 attr[:] = value
             else:
                 setattr(new_element, name, value)
+        self._values.append(new_element)
         return new_element
 
     def extend(self, elem_seq):
+        elem_seq = listed(elem_seq)
         if self._max_len and len(self) + len(elem_seq) > self._max_len:
             raise ProphyError("exceeded array limit")
+        self._check_sizer(len(self) + len(elem_seq))
 
         composite_cls = self._TYPE
+        new_elements = []
         for message in elem_seq:
             new_element = composite_cls()
             new_element.copy_from(message)
-            self._values.append(new_element)
+            new_elements.append(new_element)
+        self._values.extend(new_elements)
 
     def __delitem__(self, idx):
         del self._values[idx]
@@ -240,6 +256,7 @@ def array(type_, **kwargs):
         _ALIGNMENT = type_._ALIGNMENT
         _BOUND = bound
         _BOUND_SHIFT = shift
+        _SIZER_MAX = None
         _PARTIAL_ALIGNMENT = None
 
     return _array
diff --git a/prophy/exception.py b/prophy/exception.py
index c526882..90422be 100644
--- a/prophy/exception.py
+++ b/prophy/exception.py
@@ -1,2 +1,6 @@
 class ProphyError(Exception):
     pass
+
+
+class ProphyTypeError(ProphyError, TypeError):
+    pass
diff --git a/prophy/generators.py b/prophy/generators.py
index 89a3be1..2a6c993 100644
--- a/prophy/generators.py
+++ b/prophy/generators.py
@@ -308,6 +308,7 @@ class struct_generator(_composite_generator_base):
         sizer_item = next(field for field in cls._descriptor if field.name == sizer_name)
         bound_shift = container_item.type._BOUND_SHIFT
         cls.validate_sizer_type(sizer_item, container_item)
+        container_item.type._SIZER_MAX = sizer_item.type._MAX - bound_shift
 
         if sizer_item.type.__name__ == "container_len":
             sizer_item.type.add_bounded_container(container_item.name)
diff --git a/prophy/scalar.py b/prophy/scalar.py
index b20b922..50ce786 100644
--- a/prophy/scalar.py
+++ b/prophy/scalar.py
@@ -51,6 +51,7 @@ def int_decorator(size, id_, min_, max_):
         cls._check = check
 
         cls._DEFAULT = 0
+        cls._MAX = max_
 
         return cls
 
-- 
2.43.0


From 03867eab3b30ab19f87ab613ff418d5a4aea86be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:20:59 +0000
Subject: [PATCH 07/61] fix: copy limited arrays of composites and optional
 composites in copy_from

Elements of a limited composite array were not copied. A present optional
composite made copy_from fail, and a message could not be copied into an
optional field of its own type.
---
 prophy/composite.py      | 5 ++++-
 prophy/composite_base.py | 2 +-
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/prophy/composite.py b/prophy/composite.py
index b194fbf..7ef9b4b 100644
--- a/prophy/composite.py
+++ b/prophy/composite.py
@@ -105,7 +105,7 @@ class struct(_composite_base):
         lhs = getattr(self, name)
         if isinstance(rhs, base_array):
             if codec_kind.is_composite(rhs._TYPE):
-                if rhs._DYNAMIC:
+                if rhs._DYNAMIC or rhs._BOUND:
                     del lhs[:]
                     lhs.extend(rhs[:])
                 else:
@@ -114,6 +114,9 @@ class struct(_composite_base):
             else:
                 lhs[:] = rhs[:]
         elif codec_kind.is_composite(type(rhs)):
+            if lhs is None:
+                setattr(self, name, True)
+                lhs = getattr(self, name)
             lhs.copy_from(rhs)
         else:
             self._fields[name] = rhs
diff --git a/prophy/composite_base.py b/prophy/composite_base.py
index 29ff806..6fd9682 100644
--- a/prophy/composite_base.py
+++ b/prophy/composite_base.py
@@ -15,7 +15,7 @@ class _composite_base(prophy_data_object):
 
     @classmethod
     def validate_copy_from(cls, rhs):
-        if not isinstance(rhs, cls):
+        if not isinstance(rhs, cls.__bases__[0] if cls._OPTIONAL else cls):
             raise ProphyTypeError("Parameter to copy_from must be instance of same class.")
 
     def _copy_implementation(self, other):
-- 
2.43.0


From 1132d9e936bac743dbd57f1ba18c02bd294b8b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:51:50 +0000
Subject: [PATCH 08/61] fix: accept union discriminators above 2^31-1 in the
 C++ full codec

---
 prophy_cpp/include/prophy/detail/mpl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophy_cpp/include/prophy/detail/mpl.hpp b/prophy_cpp/include/prophy/detail/mpl.hpp
index 04bbe59..df1f465 100644
--- a/prophy_cpp/include/prophy/detail/mpl.hpp
+++ b/prophy_cpp/include/prophy/detail/mpl.hpp
@@ -17,7 +17,7 @@ struct is_class_or_union
     static const bool value = sizeof(is_class_or_union_tester<T>(0)) == sizeof(char);
 };
 
-template <int I>
+template <unsigned I>
 struct int2type
 {
     enum { value = I };
-- 
2.43.0


From 839ac05d9bdffa277c25b4ebe44ba00be77f3ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:07 +0000
Subject: [PATCH 09/61] fix: count fixed members followed by dynamic padding in
 C++ get_byte_size

---
 prophyc/generators/cpp_full.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 7462e4f..492798d 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -437,7 +437,7 @@ def generate_struct_get_byte_size(node):
             if m.is_dynamic or m.greedy:
                 elems += ['{0}.size() * {1}'.format(m.name, _get_byte_size(m))]
             else:
-                bytes_ += m.byte_size + m.padding
+                bytes_ += m.byte_size + max(m.padding, 0)
         else:
             if m.is_dynamic or m.greedy:
                 elems += [
-- 
2.43.0


From 4f2bd30923187f7f610013ae7f7f1c18449de476 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:55:07 +0000
Subject: [PATCH 10/61] fix: pad dynamic structs ending with an optional of an
 odd size

---
 prophyc/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophyc/model.py b/prophyc/model.py
index 08234b8..9a71e9f 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -578,6 +578,8 @@ def evaluate_sizes(nodes, warn=null_warn):
             byte_size += padding
             if any(is_member_dynamic(m) for m in node_.members):
                 prev_member.padding = (node_.members[-1].alignment < alignment) and (-alignment) or 0
+                if not is_member_dynamic(prev_member) and prev_member.byte_size % alignment:
+                    prev_member.padding = -alignment
             else:
                 prev_member.padding = padding
         node_.byte_size, node_.alignment = byte_size, alignment
-- 
2.43.0


From 41bdced7f9fef5ec1332190031838a7caba1dffb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 01:57:14 +0000
Subject: [PATCH 11/61] fix: use the wire alignment of optional composites with
 limited arrays in C++

---
 prophy_cpp/include/prophy/detail/decoder.hpp | 13 +++++++++++++
 prophy_cpp/include/prophy/detail/encoder.hpp | 12 ++++++++++++
 prophyc/generators/cpp_full.py               | 16 ++++++++++++++++
 3 files changed, 41 insertions(+)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index 63120de..2e07d53 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -346,6 +346,19 @@ inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
     return true;
 }
 
+/// for types whose alignment in memory exceeds the one on the wire
+template <endianness E, size_t Alignment, typename T>
+inline bool do_decode_optional(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
+{
+    uint32_t disc;
+    if (!do_decode<E>(disc, pos, end) || !do_decode_advance(Alignment - sizeof(uint32_t), pos, end))
+    {
+        return false;
+    }
+    x = disc ? optional<T>(T()) : optional<T>();
+    return disc ? decoder<E, T>::decode(*x, pos, end) : do_decode_advance(codec_traits<T>::size, pos, end);
+}
+
 template <endianness E, typename T>
 inline bool do_decode_in_place(T& x, const uint8_t* pos, const uint8_t* end)
 {
diff --git a/prophy_cpp/include/prophy/detail/encoder.hpp b/prophy_cpp/include/prophy/detail/encoder.hpp
index 73fd7df..25adcd0 100644
--- a/prophy_cpp/include/prophy/detail/encoder.hpp
+++ b/prophy_cpp/include/prophy/detail/encoder.hpp
@@ -252,6 +252,18 @@ inline uint8_t* do_encode(uint8_t* data, const optional<T>& x)
     return data + codec_traits<T>::size;
 }
 
+/// for types whose alignment in memory exceeds the one on the wire
+template <endianness E, size_t Alignment, typename T>
+inline uint8_t* do_encode_optional(uint8_t* data, const optional<T>& x)
+{
+    do_encode<E>(data, uint32_t(bool(x)));
+    if (x)
+    {
+        do_encode<E>(data + Alignment, *x);
+    }
+    return data + Alignment + codec_traits<T>::size;
+}
+
 } // namespace detail
 } // namespace prophy
 
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 492798d..f7609f5 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -63,6 +63,16 @@ def _get_cpp_builtin_type(node):
     return BUILTIN2C[_get_leaf(node).type_name]
 
 
+def _has_vector(node, seen=()):
+    """Tells if C++ type of any node is aligned as std::vector, due to limited arrays inside."""
+    seen = seen or set()
+    node = _get_leaf(node)
+    if not isinstance(node, (model.Struct, model.Union)) or node.name in seen:
+        return False
+    seen.add(node.name)
+    return any(getattr(m, 'bound', None) or _has_vector(m, seen) for m in node.members)
+
+
 def _to_literal(value):
     try:
         return '{}{}'.format(value, int(value, 0) > 0 and 'u' or '')
@@ -346,6 +356,9 @@ def generate_struct_encode(node):
 
         elif m.greedy:
             text += 'pos = do_encode<E>(pos, x.{0}.data(), x.{0}.size());\n'.format(m.name)
+        elif m.optional and _has_vector(m):
+            text += 'pos = do_encode_optional<E, {1}>(pos, x.{0});\n'.format(
+                m.name, max(DISC_SIZE, _get_leaf(m).alignment))
         elif m.optional:
             text += 'pos = do_encode<E>(pos, x.{0});\n'.format(m.name)
         elif m.name in bound:
@@ -381,6 +394,9 @@ def generate_struct_decode(node):
             text.append('do_decode_advance({0}, pos, end)'.format(m.byte_size))
         elif m.greedy:
             text.append('do_decode_greedy<E>(x.{0}, pos, end)'.format(m.name))
+        elif m.optional and _has_vector(m):
+            text.append('do_decode_optional<E, {1}>(x.{0}, pos, end)'.format(
+                m.name, max(DISC_SIZE, _get_leaf(m).alignment)))
         elif m.optional:
             text.append('do_decode<E>(x.{0}, pos, end)'.format(m.name))
         elif m.name in bound:
-- 
2.43.0


From 94aa5bf8817051b2a2ad919d0b6319df90377064 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:18 +0000
Subject: [PATCH 12/61] fix: do not resize arrays beyond what the input may
 hold in C++ full decode

---
 prophy_cpp/include/prophy/detail/decoder.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index 2e07d53..428c0c3 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -2,6 +2,7 @@
 #define _PROPHY_DETAIL_DECODER_HPP_
 
 #include <stdint.h>
+#include <algorithm>
 #include <prophy/endianness.hpp>
 #include <prophy/optional.hpp>
 #include <prophy/detail/codec_traits.hpp>
@@ -389,7 +390,9 @@ inline bool do_decode_resize(std::vector<T>& v, const uint8_t*& pos, const uint8
     {
         return false;
     }
-    v.resize(n);
+    // one element more than the remaining input may hold is enough for the decoding to fail
+    const size_t room = size_t(end - pos) / (codec_traits<T>::size > 0 ? codec_traits<T>::size : 1) + 1;
+    v.resize(std::min(size_t(n), room));
     return true;
 }
 
-- 
2.43.0


From b5558d0247f6fd39a65907606d373c50d583c09a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:31 +0000
Subject: [PATCH 13/61] fix: check bounds when skipping an unset optional in
 C++ full decode

---
 prophy_cpp/include/prophy/detail/decoder.hpp | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index 428c0c3..d1dd6e6 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -343,8 +343,7 @@ inline bool do_decode(optional<T>& x, const uint8_t*& pos, const uint8_t* end)
     {
         return decoder<E, T>::decode(*x, pos, end);
     }
-    pos = pos + codec_traits<T>::size;
-    return true;
+    return do_decode_advance(codec_traits<T>::size, pos, end);
 }
 
 /// for types whose alignment in memory exceeds the one on the wire
-- 
2.43.0


From 7d755b52a3def8fb67a20d198d18c225334a0f9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:03:42 +0000
Subject: [PATCH 14/61] fix: do not consume a partial element of a greedy array
 in C++ full decode

---
 prophy_cpp/include/prophy/detail/decoder.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophy_cpp/include/prophy/detail/decoder.hpp b/prophy_cpp/include/prophy/detail/decoder.hpp
index d1dd6e6..4e9a139 100644
--- a/prophy_cpp/include/prophy/detail/decoder.hpp
+++ b/prophy_cpp/include/prophy/detail/decoder.hpp
@@ -279,9 +279,11 @@ struct decoder_greedy<E, T, true>
         v.resize(0);
         while(true)
         {
+            const uint8_t* begin = pos;
             v.push_back(T());
             if (!decoder<E, T>::decode(v.back(), pos, end))
             {
+                pos = begin;
                 v.pop_back();
                 return true;
             }
-- 
2.43.0


From 10d2c431a1236901eb7b2dd42bfa7e1e2cf103e9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 02:16:57 +0000
Subject: [PATCH 15/61] fix: pad between the flag and an 8-byte aligned
 optional value in C++ raw structs

---
 prophyc/generators/cpp.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 7593f21..1ae89c9 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -28,6 +28,18 @@ def _to_literal(value):
         return value
 
 
+def _get_value_alignment(member):
+    """Alignment of the member's type, not influenced by optional flag nor by partial padding."""
+    definition = member
+    while isinstance(definition, model.Typedef) and definition.definition:
+        definition = definition.definition
+    if isinstance(definition, (model.Struct, model.Union)):
+        return definition.alignment
+    if isinstance(definition, model.Enum):
+        return model.ENUM_SIZE
+    return model.BUILTIN_SIZES[definition.type_name]
+
+
 class _Padder(object):
     PADDINGS = (
         (1, 'uint8_t'),
@@ -121,7 +133,10 @@ class _HppDefinitionsTranslator(TranslatorBase):
             else:
                 field = '{0} {1};\n'.format(typename, member.name)
             if member.optional:
-                field = 'prophy::bool_t has_{0};\n'.format(member.name) + field
+                flag = 'prophy::bool_t has_{0};\n'.format(member.name)
+                if _get_value_alignment(member) > model.DISC_SIZE:
+                    flag += padder.generate_padding(_get_value_alignment(member) - model.DISC_SIZE)
+                field = flag + field
             if member.padding is not None and member.padding > 0:
                 field += padder.generate_padding(member.padding)
             return field
-- 
2.43.0


From ec724dbf2ea57223b93fad6e713be0f6653548f9 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 02:18:16 +0000
Subject: [PATCH 16/61] fix: return the exact address of an unlimited member
 from C++ raw swap

---
 prophyc/generators/cpp.py | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 1ae89c9..ba8e0a3 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -308,6 +308,18 @@ class _CppSwapTranslator(TranslatorBase):
             else:
                 return gen_member(last_mem) + ';\n' + 'return payload + 1;\n'
 
+        def return_unaligned(statements):
+            """ Returned address is not to be aligned up to the type it is casted to. """
+            return statements.replace('return cast<', 'return reinterpret_cast<')
+
+        def is_unlimited_unaligned(members, alignment, type_alignment):
+            """ Checks if unlimited last member may lie at an address not aligned to given type. """
+            last = members[-1]
+            if last.kind != model.Kind.UNLIMITED and not last.greedy:
+                return False
+            offset = sum(mem.byte_size + mem.padding for mem in members[:-1])
+            return alignment < type_alignment or offset % type_alignment != 0
+
         def gen_main(main, parts):
             all_names = {mem.name: 'payload' for mem in main}
             for i, part in enumerate(parts):
@@ -336,6 +348,9 @@ class _CppSwapTranslator(TranslatorBase):
                 members += gen_last_member(struct.name, main[-1])
             else:
                 members += 'return payload + 1;\n'
+            if parts and is_unlimited_unaligned(parts[-1], parts[-1][0].alignment, struct.alignment) or \
+                    main and is_unlimited_unaligned(main, struct.alignment, struct.alignment):
+                members = return_unaligned(members)
             return STRUCT_SWAP_MAIN_TEMPLATE.format(name=struct.name, members=_indent(members, 4))
 
         def gen_part(part_number, part):
@@ -343,6 +358,9 @@ class _CppSwapTranslator(TranslatorBase):
             delimiters = [mem.bound for mem in part if mem.bound and mem.bound not in names]
             members = ''.join(gen_member(mem, delimiters) + ';\n' for mem in part[:-1])
             members += gen_last_member('{0}::part{1}'.format(struct.name, part_number), part[-1], delimiters)
+            part_alignment = part[0].alignment
+            if is_unlimited_unaligned(part, part_alignment, part_alignment):
+                members = return_unaligned(members)
             delimiters_list = ''.join(', size_t {0}'.format(x) for x in delimiters)
             return STRUCT_SWAP_PART_TEMPLATE.format(name=struct.name, number=part_number, members=_indent(members, 4),
                                                     delimiters=delimiters_list)
-- 
2.43.0


From 052741e7335a95334fe8f6b410983b7782f296ab Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 02:21:23 +0000
Subject: [PATCH 17/61] fix: pass each outer sizer to a C++ raw part once, also
 to its limited last member

---
 prophyc/generators/cpp.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index ba8e0a3..2bc8b95 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -28,6 +28,10 @@ def _to_literal(value):
         return value
 
 
+def _unique(items):
+    return [x for i, x in enumerate(items) if x not in items[:i]]
+
+
 def _get_value_alignment(member):
     """Alignment of the member's type, not influenced by optional flag nor by partial padding."""
     definition = member
@@ -306,7 +310,7 @@ class _CppSwapTranslator(TranslatorBase):
                     gen_member(last_mem, delimiters)
                 )
             else:
-                return gen_member(last_mem) + ';\n' + 'return payload + 1;\n'
+                return gen_member(last_mem, delimiters) + ';\n' + 'return payload + 1;\n'
 
         def return_unaligned(statements):
             """ Returned address is not to be aligned up to the type it is casted to. """
@@ -333,7 +337,7 @@ class _CppSwapTranslator(TranslatorBase):
                         if mem.bound and mem.bound not in names]
 
             def gen_missing(part_number):
-                return ''.join(', {0}->{1}'.format(x[0], x[1]) for x in get_missing(part_number))
+                return ''.join(', {0}->{1}'.format(x[0], x[1]) for x in _unique(get_missing(part_number)))
 
             members = ''.join(gen_member(mem) + ';\n' for mem in main[:-1])
             if parts:
@@ -361,7 +365,7 @@ class _CppSwapTranslator(TranslatorBase):
             part_alignment = part[0].alignment
             if is_unlimited_unaligned(part, part_alignment, part_alignment):
                 members = return_unaligned(members)
-            delimiters_list = ''.join(', size_t {0}'.format(x) for x in delimiters)
+            delimiters_list = ''.join(', size_t {0}'.format(x) for x in _unique(delimiters))
             return STRUCT_SWAP_PART_TEMPLATE.format(name=struct.name, number=part_number, members=_indent(members, 4),
                                                     delimiters=delimiters_list)
 
-- 
2.43.0


From 1d790c7701d682c4dff08a332662f50e4e410284 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 02:21:29 +0000
Subject: [PATCH 18/61] fix: classify a struct with a dynamic array and an
 unlimited last field as unlimited

---
 prophyc/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 9a71e9f..28e1a77 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -332,7 +332,7 @@ class _SerializableContainer(_Container, _Serializable):
                 for member in self.members:
                     member.calc_wire_stiffness()
 
-                if self.members[-1].greedy:
+                if self.members[-1].greedy or self.members[-1].kind == Kind.UNLIMITED:
                     self.kind = Kind.UNLIMITED
                 elif any(x.is_dynamic for x in self.members):
                     self.kind = Kind.DYNAMIC
-- 
2.43.0


From 29daf2a29d05ab5f1bfb64803ccffe6b2d3c0b7a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 02:21:36 +0000
Subject: [PATCH 19/61] fix: evaluate the stiffness of typedefs along with
 structs

---
 prophyc/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 28e1a77..f9204e3 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -494,7 +494,7 @@ def to_int(x, constants):
 def evaluate_stiffness_kinds(nodes):
     """Adds kind to all Structs and StructMembers. Requires cross referenced nodes."""
     for node in nodes:
-        if isinstance(node, Struct):
+        if isinstance(node, (Struct, Typedef)):
             node.calc_wire_stiffness()
 
 
-- 
2.43.0


From da62391ff17d247ebb8b99992252a14be4b60960 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 02:37:39 +0000
Subject: [PATCH 20/61] fix: use integer division in constant expressions

---
 prophyc/calc.py           | 2 +-
 prophyc/parsers/prophy.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/prophyc/calc.py b/prophyc/calc.py
index 5b554c6..0e03b45 100644
--- a/prophyc/calc.py
+++ b/prophyc/calc.py
@@ -74,7 +74,7 @@ class Calc(object):
         elif p[2] == '*':
             p[0] = p[1] * p[3]
         elif p[2] == '/':
-            p[0] = p[1] / p[3]
+            p[0] = p[1] // p[3]
         elif p[2] == '<<':
             p[0] = p[1] << p[3]
         elif p[2] == '>>':
diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 0ab25ad..dbc6505 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -415,7 +415,7 @@ class Parser(object):
             elif t[2] == '*':
                 t[0] = t[1] * t[3]
             elif t[2] == '/':
-                t[0] = t[1] / t[3]
+                t[0] = t[1] // t[3]
             elif t[2] == '<<':
                 t[0] = t[1] << t[3]
             elif t[2] == '>>':
-- 
2.43.0


From 5cc9db975e183e57972bb942d52d5e1241d60d80 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 02:38:40 +0000
Subject: [PATCH 21/61] fix: report shift counts and numbers which are out of
 range in prophy expressions

---
 prophyc/parsers/prophy.py | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index dbc6505..af33220 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -7,10 +7,18 @@ import ply.yacc as yacc
 from prophyc import file_processor, model, six
 
 
+MAX_NUMBER_BITS = 1024
+
+
 def get_column(input_, pos):
     return pos - input_.rfind('\n', 0, pos)
 
 
+def is_number_too_big(value):
+    """Keeps numbers in expressions within what can be computed and printed."""
+    return value.bit_length() > MAX_NUMBER_BITS
+
+
 class Parser(object):
     literals = ['+', '-', '*', '/', '(', ')', '#']
 
@@ -42,16 +50,19 @@ class Parser(object):
 
     def t_CONST16(self, t):
         r'0x[0-9a-fA-F]+'
+        t.value = self._limit_digits(t)
         t.value = int(t.value, 16)
         return t
 
     def t_CONST8(self, t):
         r'0[0-7]+'
+        t.value = self._limit_digits(t)
         t.value = int(t.value, 8)
         return t
 
     def t_CONST10(self, t):
         r'(([1-9]\d*)|0)'
+        t.value = self._limit_digits(t)
         t.value = int(t.value)
         return t
 
@@ -70,6 +81,12 @@ class Parser(object):
     t_RSHIFT = r'>>'
     t_AT = r'@'
 
+    def _limit_digits(self, t):
+        if len(t.value) > MAX_NUMBER_BITS // 4:
+            self._parser_error("number '{}...' too big".format(t.value[:10]), t.lexer.lineno, t.lexpos)
+            return '0'
+        return t.value
+
     t_ignore = ' \t\r'
 
     def t_newline(self, t):
@@ -416,6 +433,12 @@ class Parser(object):
                 t[0] = t[1] * t[3]
             elif t[2] == '/':
                 t[0] = t[1] // t[3]
+            elif t[3] < 0 or t[3] > MAX_NUMBER_BITS:
+                self._parser_error(
+                    "shift count '{}' out of range".format(t[3]),
+                    t.lineno(3), t.lexpos(3)
+                )
+                t[0] = 0
             elif t[2] == '<<':
                 t[0] = t[1] << t[3]
             elif t[2] == '>>':
@@ -426,6 +449,9 @@ class Parser(object):
                 t.lineno(1), t.lexpos(1)
             )
             t[0] = 0
+        if is_number_too_big(t[0]):
+            self._parser_error('result of expression too big', t.lineno(1), t.lexpos(1))
+            t[0] = 0
         t.slice[0].lineno = t.lineno(1)
         t.slice[0].lexpos = t.lexpos(1)
 
-- 
2.43.0


From ce4bbe9ab1d96af01b6a7bc675cc9d0fa8a1c3bc Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 02:39:05 +0000
Subject: [PATCH 22/61] fix: reject enumerators and discriminators outside of
 32 bits and constants outside of 64 bits

---
 prophyc/parsers/prophy.py | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index af33220..f4b1073 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -222,6 +222,11 @@ class Parser(object):
 
     def p_constant_def(self, t):
         '''constant_def : CONST unique_id EQUALS expression SEMI'''
+        self._parser_check(
+            -(1 << 63) <= t[4] < (1 << 64),
+            "value '{}' of constant '{}' does not fit in 64 bits".format(t[4], t[2]),
+            t.lineno(4), t.lexpos(4)
+        )
         node = model.Constant(t[2], str(t[4]))
         self.constdecls[t[2]] = node
         self.nodes.append(node)
@@ -246,6 +251,11 @@ class Parser(object):
 
     def p_enum_member(self, t):
         '''enum_member : unique_id EQUALS expression'''
+        self._parser_check(
+            0 <= t[3] < (1 << 32),
+            "value '{}' of enumerator '{}' does not fit in 32 bits".format(t[3], t[1]),
+            t.lineno(3), t.lexpos(3)
+        )
         member = model.EnumMember(t[1], str(t[3]))
         self.constdecls[t[1]] = member
         t[0] = member
@@ -369,6 +379,11 @@ class Parser(object):
 
     def p_union_member(self, t):
         '''union_member : expression COLON type_spec ID'''
+        self._parser_check(
+            0 <= t[1] < (1 << 32),
+            "discriminator '{}' of '{}' does not fit in 32 bits".format(t[1], t[4]),
+            t.lineno(1), t.lexpos(1)
+        )
         t[0] = (model.UnionMember(t[4], t[3][0], str(t[1]), definition=t[3][1]), t.lineno(4), t.lexpos(4))
 
     def p_type_spec_1(self, t):
-- 
2.43.0


From b3737b1886b9f382d71985cbf457f7b3390cc8ee Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 02:39:12 +0000
Subject: [PATCH 23/61] fix: reject arrays, optionals and sizers which cannot
 be composed

---
 prophyc/parsers/prophy.py | 20 ++++++++++++++++++++
 1 file changed, 20 insertions(+)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index f4b1073..83b92a7 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -158,10 +158,30 @@ class Parser(object):
                     self._parser_check(self._is_type_sizer_compatible(bound.type_name),
                                        "Sizer of '{}' has to be of (unsigned) integer type".format(name),
                                        line, pos)
+                    self._parser_check(not bound.optional and not bound.is_array,
+                                       "Sizer of '{}' can be neither optional nor array".format(name),
+                                       line, pos)
                 else:
                     self._parser_error("Sizer of '{}' has to be defined before the array".format(name),
                                        line, pos)
 
+        for member, line, pos in members:
+            self._parser_check(
+                member.kind == model.Kind.FIXED or not member.size,
+                "array '{}' of fixed size has elements of varying size".format(member.name),
+                line, pos
+            )
+            self._parser_check(
+                member.kind != model.Kind.UNLIMITED or not member.is_array,
+                "array '{}' has elements of unlimited size".format(member.name),
+                line, pos
+            )
+            self._parser_check(
+                member.kind == model.Kind.FIXED or not member.optional,
+                "optional field '{}' of varying size".format(member.name),
+                line, pos
+            )
+
         for member, line, pos in members[:-1]:
             self._parser_check(
                 not member.greedy and member.kind != model.Kind.UNLIMITED,
-- 
2.43.0


From 48cd0aa9d1235c8b55e6ccd745ded86e43783eda Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 02:40:33 +0000
Subject: [PATCH 24/61] fix: report definitions depending on each other instead
 of sorting them endlessly

---
 prophyc/model.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index f9204e3..93ab8c2 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -395,6 +395,9 @@ def topological_sort(nodes):
         for dep in node.dependencies():
             if dep not in known and dep in available:
                 found_index = find_first_dep(dep, index + 1)
+                pending.append(node.name)
+                if not found_index or dep in pending:
+                    raise ModelError("definitions depend on each other: %s" % ", ".join(pending))
                 if found_index:
                     nodes.insert(index, nodes.pop(found_index))
                 return True
@@ -403,6 +406,7 @@ def topological_sort(nodes):
     known = set(x + y for x in "uir" for y in ["8", "16", "32", "64"])
     available = set(node.name for node in nodes)
     for index in range(len(nodes)):
+        pending = []
         while model_sort_rotate():
             pass
 
@@ -635,8 +639,11 @@ class ModelParser(object):
         self.emit = emit
 
     def __call__(self, *parse_args):
-        nodes = self.parser.parse(*parse_args)
-        if self.patcher:
-            self.patcher(nodes)
-        nodes, _ = evaluate_model(nodes, self.emit.warn)
+        try:
+            nodes = self.parser.parse(*parse_args)
+            if self.patcher:
+                self.patcher(nodes)
+            nodes, _ = evaluate_model(nodes, self.emit.warn)
+        except ModelError as e:
+            raise ParseError([(parse_args[1], str(e))])
         return nodes
-- 
2.43.0


From b13465cd80c2b9137f6e2e699a70066d6c703539 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 02:41:14 +0000
Subject: [PATCH 25/61] fix: sort definitions by all the names used in their
 expressions

---
 prophyc/model.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 93ab8c2..744d9a8 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -101,7 +101,7 @@ class Constant(ModelNode):
         def sub_(x, y):
             return x.replace(y, " ")
 
-        for symbol in six.reduce(sub_, "()+-", self.value).split():
+        for symbol in six.reduce(sub_, "()+-*/<>|", str(self.value)).split():
             if not symbol.isdigit():
                 yield symbol
 
@@ -189,6 +189,11 @@ class StructMember(Typedef):
         """amount of bytes to add before next field. If field dynamic: negative alignment of next field"""
         self.padding = None
 
+    def dependencies(self):
+        yield self.type_name
+        for symbol in Constant("size", self.size or "").dependencies():
+            yield symbol
+
     @property
     def is_array(self):
         return self.bound or self.size or self.greedy
@@ -232,6 +237,11 @@ class UnionMember(Typedef):
         super(UnionMember, self).__init__(name, type_name, definition, docstring)
         self.discriminator = discriminator
 
+    def dependencies(self):
+        yield self.type_name
+        for symbol in Constant("discriminator", self.discriminator or "").dependencies():
+            yield symbol
+
 
 """ Composite kinds """
 
@@ -316,8 +326,11 @@ class Enum(_Container):
     __slots__ = ()
 
     def dependencies(self):
+        own_names = set(member.name for member in self.members)
         for member in self.members:
-            yield member.name
+            for dependency in member.dependencies():
+                if dependency not in own_names:
+                    yield dependency
 
 
 class _SerializableContainer(_Container, _Serializable):
@@ -393,6 +406,7 @@ def topological_sort(nodes):
     def model_sort_rotate():
         node = nodes[index]
         for dep in node.dependencies():
+            dep = enumerator_owners.get(dep, dep)
             if dep not in known and dep in available:
                 found_index = find_first_dep(dep, index + 1)
                 pending.append(node.name)
@@ -405,6 +419,7 @@ def topological_sort(nodes):
 
     known = set(x + y for x in "uir" for y in ["8", "16", "32", "64"])
     available = set(node.name for node in nodes)
+    enumerator_owners = dict((mem.name, node.name) for node in nodes if isinstance(node, Enum) for mem in node.members)
     for index in range(len(nodes)):
         pending = []
         while model_sort_rotate():
-- 
2.43.0


From e3f4ec468853409817fa3b894cd25936a55ecfbd Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 02:41:43 +0000
Subject: [PATCH 26/61] fix: generate values of isar expressions, which mean
 something else in the target languages

---
 prophyc/model.py | 34 +++++++++++++++++++++++++++++++++-
 1 file changed, 33 insertions(+), 1 deletion(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 744d9a8..5e81b28 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -1,3 +1,4 @@
+import re
 from itertools import islice
 
 import renew
@@ -647,6 +648,36 @@ def evaluate_model(nodes, warn_emitter=lambda x: None):
     return nodes, constants
 
 
+def evaluate_expressions(nodes, constants):
+    """
+    Replaces expressions with their values, so that generated code doesn't depend
+    on operators precedence and types of target languages. Names of constants are kept.
+    """
+    constant_names = set(name for name, node in _make_types_index(nodes) if isinstance(node, Constant))
+
+    def evaluate(expression):
+        if expression in constant_names or re.match(r'-?(0|[1-9][0-9]*|0x[0-9a-fA-F]+)$', str(expression)):
+            return expression
+        try:
+            return str(to_int(expression, constants))
+        except calc.ParseError:
+            return expression
+
+    for node in nodes:
+        if isinstance(node, Constant):
+            node._value = evaluate(node.value)
+        elif isinstance(node, Enum):
+            for member in node.members:
+                member._value = evaluate(member.value)
+        elif isinstance(node, Struct):
+            for member in node.members:
+                if member.size:
+                    member.size = evaluate(member.size)
+        elif isinstance(node, Union):
+            for member in node.members:
+                member.discriminator = evaluate(member.discriminator)
+
+
 class ModelParser(object):
     def __init__(self, parser, patcher, emit):
         self.parser = parser
@@ -658,7 +689,8 @@ class ModelParser(object):
             nodes = self.parser.parse(*parse_args)
             if self.patcher:
                 self.patcher(nodes)
-            nodes, _ = evaluate_model(nodes, self.emit.warn)
+            nodes, constants = evaluate_model(nodes, self.emit.warn)
+            evaluate_expressions(nodes, constants)
         except ModelError as e:
             raise ParseError([(parse_args[1], str(e))])
         return nodes
-- 
2.43.0


From ccf2b3037bd69f99230cf6c8996f1402863c83ab Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 02:42:57 +0000
Subject: [PATCH 27/61] fix: report all wrong expressions by the parse error of
 the calculator

---
 prophyc/calc.py  | 17 +++++++++++++++++
 prophyc/model.py |  2 +-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/prophyc/calc.py b/prophyc/calc.py
index 0e03b45..1b8697c 100644
--- a/prophyc/calc.py
+++ b/prophyc/calc.py
@@ -6,6 +6,9 @@ class ParseError(Exception):
     pass
 
 
+MAX_NUMBER_BITS = 1024
+
+
 class Calc(object):
     tokens = ('NAME', 'CONST16', 'CONST10', 'LSHIFT', 'RSHIFT')
     precedence = (
@@ -39,6 +42,8 @@ class Calc(object):
     @staticmethod
     def t_CONST10(t):
         r"""\d+"""
+        if len(t.value) > MAX_NUMBER_BITS // 4:
+            raise ParseError("number '%s...' too big" % t.value[:10])
         t.value = int(t.value)
         return t
 
@@ -67,6 +72,10 @@ class Calc(object):
                       | expression '|' expression
                       | expression LSHIFT expression
                       | expression RSHIFT expression"""
+        if p[2] == '/' and not p[3]:
+            raise ParseError("division by zero")
+        if p[2] in ('<<', '>>') and not 0 <= p[3] <= MAX_NUMBER_BITS:
+            raise ParseError("shift count '%s' out of range" % p[3])
         if p[2] == '+':
             p[0] = p[1] + p[3]
         elif p[2] == '-':
@@ -81,6 +90,8 @@ class Calc(object):
             p[0] = p[1] >> p[3]
         elif p[2] == '|':
             p[0] = p[1] | p[3]
+        if p[0].bit_length() > MAX_NUMBER_BITS:
+            raise ParseError("result of expression too big")
 
     @staticmethod
     def p_expression_uminus(p):
@@ -102,12 +113,18 @@ class Calc(object):
         """expression : NAME"""
         try:
             p[0] = p[1]
+            visited = set()
             while not isinstance(p[0], int):
+                if p[0] in visited:
+                    raise LookupError(p[0])
+                visited.add(p[0])
                 p[0] = self.vars[p[0]]
         except LookupError:
             raise ParseError("numeric constant '%s' not found" % p[1])
 
     def p_error(self, p):
+        if not p:
+            raise ParseError("unexpected end of expression")
         raise ParseError("syntax error at '%s'" % p.value)
 
 
diff --git a/prophyc/model.py b/prophyc/model.py
index 5e81b28..33015da 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -508,7 +508,7 @@ def to_int(x, constants):
         return int(x)
     except ValueError:
         val = constants.get(x)
-        return val if val is not None else calc.eval(x, constants)
+        return val if isinstance(val, int) else calc.eval(x, constants)
 
 
 def evaluate_stiffness_kinds(nodes):
-- 
2.43.0


From 25b74d300c87db761f92cdc1066587e9d5ff774d Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 02:43:42 +0000
Subject: [PATCH 28/61] fix: report malformed isar definitions as parse errors

---
 prophyc/parsers/isar.py | 38 ++++++++++++++++++++++++++++++++++++--
 1 file changed, 36 insertions(+), 2 deletions(-)

diff --git a/prophyc/parsers/isar.py b/prophyc/parsers/isar.py
index 0567e94..5e79a9c 100644
--- a/prophyc/parsers/isar.py
+++ b/prophyc/parsers/isar.py
@@ -57,6 +57,34 @@ primitive_types = {"8 bit integer unsigned": "u8",
                    "64 bit float": "r64"}
 
 
+class DuplicateEnumValueError(ValueError, model.ModelError):
+    pass
+
+
+def check_attributes(xml_elem, names):
+    for name in names:
+        if not xml_elem.get(name):
+            raise model.ModelError("element '{}' needs attribute '{}'".format(xml_elem.tag, name))
+
+
+def check_element(xml_elem):
+    """Raises an error if a definition lacks anything needed to make a model node."""
+    if xml_elem.tag == "constant":
+        check_attributes(xml_elem, ["name", "value"])
+    elif xml_elem.tag == "typedef":
+        if "type" in xml_elem.attrib:
+            check_attributes(xml_elem, ["name", "type"])
+        elif "primitiveType" in xml_elem.attrib:
+            check_attributes(xml_elem, ["name", "primitiveType"])
+            if xml_elem.get("primitiveType") not in primitive_types:
+                raise model.ModelError("unknown primitive type '{}'".format(xml_elem.get("primitiveType")))
+    elif xml_elem.tag in ("enum", "struct", "union", "message") and len(xml_elem):
+        check_attributes(xml_elem, ["name"])
+        member_attributes = {"enum": ["name", "value"], "union": ["name", "type", "discriminatorValue"]}
+        for member in xml_elem:
+            check_attributes(member, member_attributes.get(xml_elem.tag, ["name", "type"]))
+
+
 def make_include(xml_elem, process_file, warn):
     if "include" in xml_elem.tag:
         path = xml_elem.get("href")
@@ -102,7 +130,7 @@ def make_enum(xml_elem):
         values = set()
         for m in enum_obj.members:
             if m.value in values:
-                raise ValueError("Duplicate Enum value in '{}', value '{}'.".format(enum_obj.name, m.value))
+                raise DuplicateEnumValueError("Duplicate Enum value in '{}', value '{}'.".format(enum_obj.name, m.value))
             values.add(m.value)
 
     if len(xml_elem):
@@ -200,7 +228,13 @@ class IsarParser(object):
         content = content.encode('utf-8')
 
         def collect():
-            root = ElementTree.fromstring(content)
+            try:
+                root = ElementTree.fromstring(content)
+            except (ElementTree.ParseError, LookupError, ValueError) as e:
+                raise model.ModelError(str(e))
+            for xml_elem in root.iterfind('.//*'):
+                check_element(xml_elem)
+
             for xml_elem in root.iterfind('.//*[@href]'):
                 yield make_include(xml_elem, process_file, self.warn)
 
-- 
2.43.0


From 7c9f5dea5e7ee70ed6a7e5e408410bc815b36c9a Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 02:44:01 +0000
Subject: [PATCH 29/61] fix: report unreadable input and included files as
 parse errors

---
 prophyc/file_processor.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/prophyc/file_processor.py b/prophyc/file_processor.py
index 1ab3f99..2bab9bc 100644
--- a/prophyc/file_processor.py
+++ b/prophyc/file_processor.py
@@ -2,6 +2,8 @@ import codecs
 import os
 from contextlib import contextmanager
 
+from .model import ParseError
+
 
 class CyclicIncludeError(Exception):
     def __init__(self, path):
@@ -16,7 +18,7 @@ class FileNotFoundError(Exception):
 def _get_first_existing_path(leaf, dirs):
     for directory in dirs:
         path = os.path.join(directory, leaf)
-        if os.path.exists(path):
+        if os.path.isfile(path):
             return path
 
 
@@ -80,8 +82,11 @@ class FileProcessor(object):
             return self.files[abspath]
         self.files[abspath] = None
 
-        with codecs.open(path, 'r', encoding='utf-8') as f:
-            content = f.read()
+        try:
+            with codecs.open(path, 'r', encoding='utf-8') as f:
+                content = f.read()
+        except (EnvironmentError, UnicodeDecodeError) as e:
+            raise ParseError([(path, "file cannot be read: %s" % e)])
         result = self.process_content(content, path, lambda leaf: self.process_leaf(leaf))
         self.files[abspath] = result
         return result
-- 
2.43.0


From c401c789a04173d4f988c39c387ca9e4b9517927 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 02:44:33 +0000
Subject: [PATCH 30/61] fix: report patch failures like other errors

---
 prophyc/__init__.py | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/prophyc/__init__.py b/prophyc/__init__.py
index 56f4753..2df717e 100644
--- a/prophyc/__init__.py
+++ b/prophyc/__init__.py
@@ -49,7 +49,10 @@ def main(args):
     if not serializers and not opts.void_out:
         emit.error("missing output directives")
 
-    patcher = get_patcher(opts.patch)
+    with error_on_patch_exception(emit, opts.patch):
+        patcher = get_patcher(opts.patch)
+    if patcher:
+        patcher = get_reporting_patcher(emit, opts.patch, patcher)
     supplementary_nodes = create_supplements(emit, opts.isar_includes, opts.include_dirs, patcher)
 
     model_nodes = dict(flatten_included_defs(supplementary_nodes))
@@ -129,6 +132,14 @@ def get_patcher(patch_file_path):
         return lambda nodes: patch.patch(nodes, patches)
 
 
+def get_reporting_patcher(emit, patch_file_path, patcher):
+    def reporting_patcher(nodes):
+        with error_on_patch_exception(emit, patch_file_path):
+            patcher(nodes)
+
+    return reporting_patcher
+
+
 def get_basename(path):
     return os.path.splitext(os.path.basename(path))[0]
 
@@ -160,3 +171,12 @@ def error_on_exception(emit):
         yield
     except model.ParseError as e:
         emit.error('\n'.join(('%s: error: %s' % err for err in e.errors)))
+
+
+@contextmanager
+def error_on_patch_exception(emit, patch_file_path):
+    """Patch rules which are wrong or don't apply fail with various exceptions."""
+    try:
+        yield
+    except Exception as e:
+        emit.error(str(e), patch_file_path)
-- 
2.43.0


From 044278830bf0768e8158c8e6367f557a63c71e71 Mon Sep 17 00:00:00 2001
From: verif <verif@localhost>
Date: Sun, 15 Nov 2026 02:45:07 +0000
Subject: [PATCH 31/61] fix: report includes nested beyond the recursion limit

---
 prophyc/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophyc/__init__.py b/prophyc/__init__.py
index 2df717e..858ba03 100644
--- a/prophyc/__init__.py
+++ b/prophyc/__init__.py
@@ -171,6 +171,8 @@ def error_on_exception(emit):
         yield
     except model.ParseError as e:
         emit.error('\n'.join(('%s: error: %s' % err for err in e.errors)))
+    except RuntimeError as e:  # RecursionError
+        emit.error("files are included too deeply: %s" % e)
 
 
 @contextmanager
-- 
2.43.0


From a8a5973e3105a80726556670a1d921d3bbd36dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:45 +0000
Subject: [PATCH 32/61] fix: report the location of names redefined in enums
 and unions

---
 prophyc/model.py          | 2 +-
 prophyc/parsers/prophy.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index 33015da..d523934 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -692,5 +692,5 @@ class ModelParser(object):
             nodes, constants = evaluate_model(nodes, self.emit.warn)
             evaluate_expressions(nodes, constants)
         except ModelError as e:
-            raise ParseError([(parse_args[1], str(e))])
+            raise ParseError(getattr(e, 'errors', None) or [(parse_args[1], str(e))])
         return nodes
diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 83b92a7..97db02e 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -564,7 +564,11 @@ class ProphyParser(object):
     def parse(content, parse_error_prefix, parse_file):
         parsers_stack = []
         with allocate_parser(parsers_stack) as parser:
-            parser.parse(content, parse_error_prefix, parse_file)
+            try:
+                parser.parse(content, parse_error_prefix, parse_file)
+            except model.ModelError as e:
+                e.errors = parser.errors
+                raise
             if parser.errors:
                 raise model.ParseError(parser.errors)
             return parser.nodes
-- 
2.43.0


From 687c5d596ad662bf8b71f3b53de775f344a30ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:45 +0000
Subject: [PATCH 33/61] fix: do not take constants for types in isar
 definitions

---
 prophyc/model.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophyc/model.py b/prophyc/model.py
index d523934..c96fe9c 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -479,6 +479,8 @@ def cross_reference(nodes, warn=null_warn):
             node_.definition = None
             return
         found = types_index.get(node_.type_name)
+        if isinstance(found, Constant):
+            found = None
         if not found:
             warn("type '%s' not found" % node_.type_name)
         node_.definition = found
-- 
2.43.0


From fda2a784ef2a626bf4edf531cee3c37cc65a3dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:57:45 +0000
Subject: [PATCH 34/61] fix: reject isar and patched definitions which cannot
 be composed

---
 prophyc/model.py | 82 ++++++++++++++++++++++++++++++++++++++++++++++++
 1 file changed, 82 insertions(+)

diff --git a/prophyc/model.py b/prophyc/model.py
index c96fe9c..bef6773 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -680,6 +680,86 @@ def evaluate_expressions(nodes, constants):
                 member.discriminator = evaluate(member.discriminator)
 
 
+def _defined_names(nodes):
+    for node in nodes:
+        if not isinstance(node, Include):
+            yield node.name
+        if isinstance(node, Enum):
+            for member in node.members:
+                yield member.name
+
+
+def validate_names(nodes):
+    names = set()
+    for name in _defined_names(nodes):
+        if name in names:
+            raise ModelError("name '{}' redefined".format(name))
+        names.add(name)
+
+
+def _lowermost_type(node):
+    while isinstance(node.definition, Typedef):
+        node = node.definition
+    return node.definition or node.type_name
+
+
+def _validate_struct(node, check):
+    for i, member in enumerate(node.members):
+        if member.bound:
+            sizer = next((m for m in node.members[:i] if m.name == member.bound), None)
+            check(sizer, "sizer of '{}' has to be defined before the array", member)
+            check(not sizer.optional and not sizer.is_array, "sizer of '{}' can be neither optional nor array", member)
+            sizer_type = _lowermost_type(sizer)
+            check(sizer_type not in ('r32', 'r64', 'byte') and not isinstance(sizer_type, ModelNode),
+                  "sizer of '{}' has to be of integer type", member)
+        if member.size and member.numeric_size is not None:
+            check(member.numeric_size > 0, "array '{}' has non-positive size", member)
+        check(not member.size or member.kind == Kind.FIXED, "array '{}' of fixed size has elements of varying size", member)
+        check(not member.is_array or member.kind != Kind.UNLIMITED, "array '{}' has elements of unlimited size", member)
+        check(not member.optional or member.kind == Kind.FIXED, "optional field '{}' of varying size", member)
+        check(member is node.members[-1] or not member.greedy and member.kind != Kind.UNLIMITED,
+              "greedy array field '{}' not last", member)
+
+
+def _validate_union(node, check, evaluate):
+    discriminators = set()
+    for member in node.members:
+        check(member.kind == Kind.FIXED, "dynamic union arm '{}'", member)
+        value = evaluate(member.discriminator)
+        check(value not in discriminators, "duplicate discriminator value of '{}'", member)
+        if value is not None:
+            discriminators.add(value)
+            check(0 <= value < (1 << 32), "discriminator of '{}' does not fit in 32 bits", member)
+
+
+def validate(nodes, constants):
+    """
+    Raises ModelError if definitions break rules of composition, which front-ends or patches may do.
+    Requires evaluated model.
+    """
+    def evaluate(expression):
+        try:
+            return to_int(expression, constants)
+        except calc.ParseError:
+            return None
+
+    for node in nodes:
+        def check(condition, message, member):
+            if not condition:
+                raise ModelError("{}: {}".format(node.name, message.format(member.name)))
+
+        if isinstance(node, _Container) and not isinstance(node, Include):
+            node._check_members_duplication(node.members)
+        if isinstance(node, Struct):
+            _validate_struct(node, check)
+        elif isinstance(node, Union):
+            _validate_union(node, check, evaluate)
+        elif isinstance(node, Enum):
+            for member in node.members:
+                value = evaluate(member.value)
+                check(value is None or 0 <= value < (1 << 32), "value of '{}' does not fit in 32 bits", member)
+
+
 class ModelParser(object):
     def __init__(self, parser, patcher, emit):
         self.parser = parser
@@ -691,7 +771,9 @@ class ModelParser(object):
             nodes = self.parser.parse(*parse_args)
             if self.patcher:
                 self.patcher(nodes)
+            validate_names(nodes)
             nodes, constants = evaluate_model(nodes, self.emit.warn)
+            validate(nodes, constants)
             evaluate_expressions(nodes, constants)
         except ModelError as e:
             raise ParseError(getattr(e, 'errors', None) or [(parse_args[1], str(e))])
-- 
2.43.0


From a2b38a22e3838e629a0e24586da444dfa65ad247 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 02:59:39 +0000
Subject: [PATCH 35/61] fix: visit files included many times once

---
 prophyc/model.py | 35 +++++++++++++++++++++++++----------
 1 file changed, 25 insertions(+), 10 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index bef6773..e8f6e1d 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -311,16 +311,25 @@ class Include(_Container):
         """ No need to provide any dependencies to include. """
         return []
 
-    def defined_symbols(self):
+    def defined_symbols(self, visited=None):
         """ Generate collection of symbols delivered by this include. """
+        visited = set() if visited is None else visited
         for member in self.members:
             if isinstance(member, Include):
-                for symbol in member.defined_symbols():
-                    yield symbol
+                if _visit(member, visited):
+                    for symbol in member.defined_symbols(visited):
+                        yield symbol
             else:
                 yield member
 
 
+def _visit(include, visited):
+    """ Files included many times, directly or not, have to be visited once. """
+    is_new = id(include.members) not in visited
+    visited.add(id(include.members))
+    return is_new
+
+
 class Enum(_Container):
     _member_type_restriction = EnumMember
     _collection_kind = "enum"
@@ -427,26 +436,29 @@ def topological_sort(nodes):
             pass
 
 
-def _make_types_index(nodes_):
+def _make_types_index(nodes_, visited=None):
     """ Creates flat dictionary that maps model objects to its name. """
+    visited = set() if visited is None else visited
     included = set()
     for node_ in nodes_:
         if isinstance(node_, Include):
-            if node_.name not in included:
+            if node_.name not in included and _visit(node_, visited):
                 included.add(node_.name)
-                for included_name, included_type in _make_types_index(node_.members):
+                for included_name, included_type in _make_types_index(node_.members, visited):
                     yield included_name, included_type
         else:
             yield node_.name, node_
 
 
-def _collect_constants(nodes_, constants=None):
+def _collect_constants(nodes_, constants=None, visited=None):
     constants = constants or {}
+    visited = set() if visited is None else visited
     included = set()
     for node_ in nodes_:
         if isinstance(node_, Include) and node_.name not in included:
             included.add(node_.name)
-            constants.update(_collect_constants(node_.members, constants))
+            if _visit(node_, visited):
+                constants.update(_collect_constants(node_.members, constants, visited))
 
         elif isinstance(node_, Constant):
             constants[node_.name] = node_.eval_int(constants)
@@ -520,12 +532,14 @@ def evaluate_stiffness_kinds(nodes):
             node.calc_wire_stiffness()
 
 
-def evaluate_sizes(nodes, warn=null_warn):
+def evaluate_sizes(nodes, warn=null_warn, visited=None):
     """
     Adds byte_size and alignment to Struct, StructMember, Union, UnionMember.
     Requires cross referenced nodes and evaluated kinds.
     """
 
+    visited = set() if visited is None else visited
+
     def evaluate_node_size(node_, parent, member):
         while isinstance(node_, Typedef) and node_.definition:
             node_ = node_.definition
@@ -621,7 +635,8 @@ def evaluate_sizes(nodes, warn=null_warn):
             if evaluate_members_sizes(node):
                 evaluate_union_size(node)
         elif isinstance(node, Include):
-            evaluate_sizes(node.members, warn)
+            if _visit(node, visited):
+                evaluate_sizes(node.members, warn, visited)
 
 
 def partition(members):
-- 
2.43.0


From c93d01817e3a12d091bd4ee699742a0e1eb2b549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:02:14 +0000
Subject: [PATCH 36/61] fix: report types which sack cannot express as parse
 errors

---
 prophyc/parsers/sack.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/prophyc/parsers/sack.py b/prophyc/parsers/sack.py
index 3310b10..7de3db2 100644
--- a/prophyc/parsers/sack.py
+++ b/prophyc/parsers/sack.py
@@ -9,7 +9,7 @@ from prophyc.six import to_bytes
 from .clang import cindex
 
 
-class SackParserError(Exception):
+class SackParserError(model.ModelError):
     pass
 
 
@@ -93,6 +93,9 @@ class Builder(object):
         elif tp.kind in (cindex.TypeKind.SHORT, cindex.TypeKind.INT, cindex.TypeKind.LONG, cindex.TypeKind.LONGLONG):
             return 'i%d' % (tp.get_size() * 8)
 
+        if tp.kind not in self.unambiguous_builtins:
+            raise SackParserError("Unknown type, {} {}".format(tp.spelling.decode(), tp.kind))
+
         return self.unambiguous_builtins[tp.kind]
 
     def add_enum(self, cursor):
-- 
2.43.0


From 6839c87db360e13699082a42ab1de4932dd6f1b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:02:14 +0000
Subject: [PATCH 37/61] fix: report enums and unions without members in C++
 full output

---
 prophyc/generators/cpp_full.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index f7609f5..22d00b9 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -632,6 +632,8 @@ class CppFullGenerator(GeneratorBase):
         for n in nodes:
             if isinstance(n, (model.Struct, model.Union)) and n.byte_size is None:
                 raise GenerateError('{0} byte size unknown'.format(n.name))
+            if isinstance(n, (model.Enum, model.Union)) and not n.members:
+                raise GenerateError('{0} has no members'.format(n.name))
             if isinstance(n, model.Struct):
                 occured = set()
                 for m in n.members:
-- 
2.43.0


From a17c6b86d423bb62d8149deb08a3b330e0d8fc70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:05:22 +0000
Subject: [PATCH 38/61] fix: report an enumerator named like its enum with a
 location

---
 prophyc/parsers/prophy.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prophyc/parsers/prophy.py b/prophyc/parsers/prophy.py
index 97db02e..985d6c3 100755
--- a/prophyc/parsers/prophy.py
+++ b/prophyc/parsers/prophy.py
@@ -253,6 +253,11 @@ class Parser(object):
 
     def p_enum_def(self, t):
         '''enum_def : ENUM unique_id enum_body SEMI'''
+        self._parser_check(
+            t[2] not in [member.name for member in t[3]],
+            "name '{}' redefined".format(t[2]),
+            t.lineno(1), t.lexpos(1)
+        )
         node = model.Enum(t[2], t[3])
         self.typedecls[t[2]] = node
         self.nodes.append(node)
-- 
2.43.0


From 7428db2c45e267c20ebc9b65ef1536944278b28b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:12 +0000
Subject: [PATCH 39/61] fix: reject names which are keywords of the generated
 language

---
 prophyc/generators/base.py     | 13 +++++++++++++
 prophyc/generators/cpp.py      | 12 +++++++++++-
 prophyc/generators/cpp_full.py |  4 +++-
 prophyc/generators/python.py   |  7 ++++++-
 4 files changed, 33 insertions(+), 3 deletions(-)

diff --git a/prophyc/generators/base.py b/prophyc/generators/base.py
index 3576768..83e2390 100644
--- a/prophyc/generators/base.py
+++ b/prophyc/generators/base.py
@@ -19,6 +19,19 @@ def _make_path(output_dir, base_name, extension):
     return os.path.join(output_dir, base_name + extension)
 
 
+def check_names(nodes, reserved_words, with_members=True):
+    """Raises an error if a definition can't be named as it is in the target language."""
+    for node in nodes:
+        if isinstance(node, model.Include):
+            continue
+        names = [node.name]
+        if isinstance(node, model.Enum) or with_members and isinstance(node, (model.Struct, model.Union)):
+            names += [member.name for member in node.members]
+        for name in names:
+            if name in reserved_words:
+                raise GenerateError("{}: name '{}' is reserved in the generated language".format(node.name, name))
+
+
 class GeneratorAbc(object):
     """
         Generator class implements one language that model is translated to.
diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 2bc8b95..8d234a7 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -1,5 +1,5 @@
 from prophyc import model
-from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase
+from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_names
 
 primitive_types = {
     'u8': 'uint8_t',
@@ -15,6 +15,15 @@ primitive_types = {
     'byte': 'uint8_t',
 }
 
+reserved_words = frozenset("""
+alignas alignof and and_eq asm auto bitand bitor bool break case catch char char8_t char16_t char32_t class co_await
+co_return co_yield compl concept const const_cast consteval constexpr constinit continue decltype default delete do
+double dynamic_cast else enum explicit export extern false float for friend goto if inline int long mutable namespace
+new noexcept not not_eq nullptr operator or or_eq private protected public register reinterpret_cast requires return
+short signed sizeof static static_assert static_cast struct switch template this thread_local throw true try typedef
+typeid typename union unsigned using virtual void volatile wchar_t while xor xor_eq
+""".split())
+
 
 def _indent(string_, spaces):
     indentation = spaces * ' '
@@ -408,6 +417,7 @@ class CppGenerator(GeneratorBase):
     }
 
     def check_nodes(self, nodes):
+        check_names(nodes, reserved_words)
         for n in nodes:
             if isinstance(n, (model.Struct, model.Union)) and n.byte_size is None:
                 raise GenerateError('{0} byte size unknown'.format(n.name))
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 22d00b9..21b3557 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -1,6 +1,7 @@
 from prophyc import model
 from prophyc.model import DISC_SIZE, BUILTIN_SIZES
-from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase
+from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_names
+from prophyc.generators.cpp import reserved_words
 
 BUILTIN2C = {
     'i8': 'int8_t',
@@ -629,6 +630,7 @@ class CppFullGenerator(GeneratorBase):
     }
 
     def check_nodes(self, nodes):
+        check_names(nodes, reserved_words)
         for n in nodes:
             if isinstance(n, (model.Struct, model.Union)) and n.byte_size is None:
                 raise GenerateError('{0} byte size unknown'.format(n.name))
diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index 01d596f..c44775c 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -1,5 +1,7 @@
+import keyword
+
 from prophyc.generators import word_wrap
-from prophyc.generators.base import GeneratorBase, TranslatorBase
+from prophyc.generators.base import GeneratorBase, TranslatorBase, check_names
 
 libname = u"prophy"
 primitive_types = {x + y: u"%s.%s" % (libname, x + y) for x in u"uir" for y in ["8", "16", "32", "64"]}
@@ -162,3 +164,6 @@ class PythonGenerator(GeneratorBase):
     top_level_translators = {
         ".py": _PythonTranslator
     }
+
+    def check_nodes(self, nodes):
+        check_names(nodes, keyword.kwlist + [libname], with_members=False)
-- 
2.43.0


From 79c9252d9684de592a0d47970b3fd1752c178641 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:41 +0000
Subject: [PATCH 40/61] fix: escape docstrings of constants in Python output

---
 prophyc/generators/python.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index c44775c..c65f4c3 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -98,6 +98,7 @@ else:
         content = u"%s = %s" % (constant.name, constant.value)
         doc = constant.docstring
         if doc:
+            doc = doc.replace(u"\\", u"\\\\").replace(u"'", u"\\'")
             content = u"\'\'\'{}\'\'\'\n{}".format(doc, content)
         return content
 
-- 
2.43.0


From baf4e3f4a497b66ed771f7edaaadc21ad0af2f83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:08:52 +0000
Subject: [PATCH 41/61] fix: generate byte used in typedefs and union arms as
 u8 in Python output

---
 prophyc/generators/python.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index c65f4c3..a77e3f2 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -40,7 +40,7 @@ def _form_struct_member(member):
 
 
 def _form_union_member(member):
-    prefixed_type = u"%s.%s" % (libname, member.type_name) if member.type_name in primitive_types else member.type_name
+    prefixed_type = primitive_types.get(member.type_name, member.type_name)
     return u"('%s', %s, %s)" % (member.name, prefixed_type, member.discriminator)
 
 
@@ -105,7 +105,7 @@ else:
     @staticmethod
     def translate_typedef(typedef):
         if typedef.type_name in primitive_types:
-            value = u"{0}.{1}".format(libname, typedef.type_name)
+            value = primitive_types[typedef.type_name]
         else:
             value = typedef.type_name
 
-- 
2.43.0


From 5446e83e1d48093fcb87cb23e2457ec8fe786dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:10 +0000
Subject: [PATCH 42/61] fix: generate values of enumerators and discriminators
 instead of names of constants

---
 prophyc/model.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/prophyc/model.py b/prophyc/model.py
index e8f6e1d..de61778 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -672,8 +672,8 @@ def evaluate_expressions(nodes, constants):
     """
     constant_names = set(name for name, node in _make_types_index(nodes) if isinstance(node, Constant))
 
-    def evaluate(expression):
-        if expression in constant_names or re.match(r'-?(0|[1-9][0-9]*|0x[0-9a-fA-F]+)$', str(expression)):
+    def evaluate(expression, keep_names=True):
+        if keep_names and expression in constant_names or re.match(r'-?(0|[1-9][0-9]*|0x[0-9a-fA-F]+)$', str(expression)):
             return expression
         try:
             return str(to_int(expression, constants))
@@ -685,14 +685,14 @@ def evaluate_expressions(nodes, constants):
             node._value = evaluate(node.value)
         elif isinstance(node, Enum):
             for member in node.members:
-                member._value = evaluate(member.value)
+                member._value = evaluate(member.value, keep_names=False)
         elif isinstance(node, Struct):
             for member in node.members:
                 if member.size:
                     member.size = evaluate(member.size)
         elif isinstance(node, Union):
             for member in node.members:
-                member.discriminator = evaluate(member.discriminator)
+                member.discriminator = evaluate(member.discriminator, keep_names=False)
 
 
 def _defined_names(nodes):
-- 
2.43.0


From 5cf317b4cd168e96c92f1148ee1fbad814bbca7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:22 +0000
Subject: [PATCH 43/61] fix: generate one case for enumerators of the same
 value in C++ full output

---
 prophyc/generators/cpp_full.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 21b3557..3a28fec 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -81,6 +81,13 @@ def _to_literal(value):
         return value
 
 
+def _to_int(value):
+    try:
+        return int(value, 0)
+    except ValueError:
+        return value
+
+
 class _HppIncludesTranslator(TranslatorBase):
     block_template = "{content}"
 
@@ -221,6 +228,7 @@ class _CppTranslator(TranslatorBase):
     block_template = CPP_SOURCE_TEMPLATE
 
     def translate_enum(self, node):
+        names = dict((_to_int(m.value), m.name) for m in node.members)
         return (
                 'template <>\n' +
                 'const char* print_traits<{0}>::to_literal({0} x)\n'.format(node.name) +
@@ -229,7 +237,8 @@ class _CppTranslator(TranslatorBase):
                     'switch (x)\n' +
                     '{\n' +
                     _indent(
-                        ''.join('case {0}: return "{0}";\n'.format(m.name) for m in node.members) +
+                        ''.join('case {0}: return "{0}";\n'.format(m.name) for m in node.members
+                                if names[_to_int(m.value)] == m.name) +
                         'default: return 0;\n'
                     ) +
                     '}\n'
-- 
2.43.0


From 5dc89eb69f24ef643a6313ec9b15ee0a4206fa5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:33 +0000
Subject: [PATCH 44/61] fix: generate the lowest 64-bit constant as a valid C++
 literal

---
 prophyc/generators/cpp.py      | 2 ++
 prophyc/generators/cpp_full.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index 8d234a7..e1e1f40 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -31,6 +31,8 @@ def _indent(string_, spaces):
 
 
 def _to_literal(value):
+    if str(value) == str(-1 << 63):
+        return '({} - 1)'.format((-1 << 63) + 1)  # the negated value is not a valid literal
     try:
         return '{}{}'.format(value, int(value, 0) > 0 and 'u' or '')
     except ValueError:
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 3a28fec..287b5a3 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -75,6 +75,8 @@ def _has_vector(node, seen=()):
 
 
 def _to_literal(value):
+    if str(value) == str(-1 << 63):
+        return '({} - 1)'.format((-1 << 63) + 1)  # the negated value is not a valid literal
     try:
         return '{}{}'.format(value, int(value, 0) > 0 and 'u' or '')
     except ValueError:
-- 
2.43.0


From e558754e2424a1de325797646f9ed8febe378894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:47 +0000
Subject: [PATCH 45/61] fix: print integers in decimal after escaped bytes

---
 prophy_cpp/include/prophy/detail/printer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prophy_cpp/include/prophy/detail/printer.hpp b/prophy_cpp/include/prophy/detail/printer.hpp
index f5aaf4e..307feaa 100644
--- a/prophy_cpp/include/prophy/detail/printer.hpp
+++ b/prophy_cpp/include/prophy/detail/printer.hpp
@@ -40,6 +40,7 @@ inline void print_byte(std::ostream& out, uint8_t x)
         out.width(2);
         out.fill('0');
         out << std::hex << unsigned(x);
+        out << std::dec;
     }
 }
 
-- 
2.43.0


From a22eb5687ef3e1aadd53df7d127446ad85169233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:10:59 +0000
Subject: [PATCH 46/61] fix: escape single quotes in printed bytes

---
 prophy_cpp/include/prophy/detail/printer.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prophy_cpp/include/prophy/detail/printer.hpp b/prophy_cpp/include/prophy/detail/printer.hpp
index 307feaa..1a81c0a 100644
--- a/prophy_cpp/include/prophy/detail/printer.hpp
+++ b/prophy_cpp/include/prophy/detail/printer.hpp
@@ -28,6 +28,7 @@ inline void print_byte(std::ostream& out, uint8_t x)
         case 9: out << "\\t"; return;
         case 10: out << "\\n"; return;
         case 13: out << "\\r"; return;
+        case 39: out << "\\'"; return;
         case 92: out << "\\\\"; return;
     }
     if ((x >= 32) && (x <= 126))
-- 
2.43.0


From c4bfb37f89c9a32e923eaa968612695f72a0825e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:12:56 +0000
Subject: [PATCH 47/61] fix: reject isar unions with arms of varying size

---
 prophyc/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/prophyc/model.py b/prophyc/model.py
index de61778..37944c6 100644
--- a/prophyc/model.py
+++ b/prophyc/model.py
@@ -739,6 +739,7 @@ def _validate_struct(node, check):
 def _validate_union(node, check, evaluate):
     discriminators = set()
     for member in node.members:
+        member.calc_wire_stiffness()
         check(member.kind == Kind.FIXED, "dynamic union arm '{}'", member)
         value = evaluate(member.discriminator)
         check(value not in discriminators, "duplicate discriminator value of '{}'", member)
-- 
2.43.0


From e7dc29e31a355adfb835b3eb4785f4238e0c1537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:14:37 +0000
Subject: [PATCH 48/61] fix: declare the namespace of generated code for files
 without definitions

---
 prophy_cpp/include/prophy/detail/message.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/prophy_cpp/include/prophy/detail/message.hpp b/prophy_cpp/include/prophy/detail/message.hpp
index 2d22af9..c4aeb26 100644
--- a/prophy_cpp/include/prophy/detail/message.hpp
+++ b/prophy_cpp/include/prophy/detail/message.hpp
@@ -11,6 +11,11 @@
 
 namespace prophy
 {
+namespace generated
+{
+// sources generated from files without definitions use this namespace too
+} // namespace generated
+
 namespace detail
 {
 
-- 
2.43.0


From 853dba1803c85ddcf5570301bb973026fe61c53a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:20:34 +0000
Subject: [PATCH 49/61] fix: reject members hiding names used by generated C++
 code

---
 prophyc/generators/cpp.py      | 23 +++++++++++++++++++++++
 prophyc/generators/cpp_full.py |  3 ++-
 2 files changed, 25 insertions(+), 1 deletion(-)

diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index e1e1f40..df2a3f6 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -25,6 +25,28 @@ typeid typename union unsigned using virtual void volatile wchar_t while xor xor
 """.split())
 
 
+def check_members(nodes, reserved=(), optional_flags=False):
+    """Raises an error if a member would hide a name which is used by generated code of its struct or union."""
+    for node in nodes:
+        if not isinstance(node, (model.Struct, model.Union)):
+            continue
+        used = set([node.name]).union(reserved).union(primitive_types.values())
+        if isinstance(node, model.Union):
+            used.add('discriminator')
+        for member in node.members:
+            used.add(member.type_name)
+            used.add(getattr(member, 'size', None))
+            if optional_flags and getattr(member, 'optional', False):
+                used.add('has_' + member.name)
+            if isinstance(node, model.Union):
+                used.add('discriminator_' + member.name)
+            if isinstance(member.definition and member.lowermost_typedef, model.Enum):
+                used.update(m.name for m in member.lowermost_typedef.members[:1])
+        for member in node.members:
+            if member.name in used:
+                raise GenerateError("{}: member '{}' hides another name".format(node.name, member.name))
+
+
 def _indent(string_, spaces):
     indentation = spaces * ' '
     return '\n'.join(indentation + x if x else x for x in string_.split('\n'))
@@ -420,6 +442,7 @@ class CppGenerator(GeneratorBase):
 
     def check_nodes(self, nodes):
         check_names(nodes, reserved_words)
+        check_members(nodes, optional_flags=True)
         for n in nodes:
             if isinstance(n, (model.Struct, model.Union)) and n.byte_size is None:
                 raise GenerateError('{0} byte size unknown'.format(n.name))
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 287b5a3..3af263d 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -1,7 +1,7 @@
 from prophyc import model
 from prophyc.model import DISC_SIZE, BUILTIN_SIZES
 from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_names
-from prophyc.generators.cpp import reserved_words
+from prophyc.generators.cpp import check_members, reserved_words
 
 BUILTIN2C = {
     'i8': 'int8_t',
@@ -642,6 +642,7 @@ class CppFullGenerator(GeneratorBase):
 
     def check_nodes(self, nodes):
         check_names(nodes, reserved_words)
+        check_members(nodes, reserved=('get_byte_size', 'encoded_byte_size'))
         for n in nodes:
             if isinstance(n, (model.Struct, model.Union)) and n.byte_size is None:
                 raise GenerateError('{0} byte size unknown'.format(n.name))
-- 
2.43.0


From ae71ca4c0c4524cf222141a0c452450a31d2db2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 03:48:33 +0000
Subject: [PATCH 50/61] fix: multiply isar dimensions given by expressions as a
 whole

---
 prophyc/parsers/isar.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophyc/parsers/isar.py b/prophyc/parsers/isar.py
index 5e79a9c..a691bf6 100644
--- a/prophyc/parsers/isar.py
+++ b/prophyc/parsers/isar.py
@@ -1,4 +1,5 @@
 import os
+import re
 import xml.etree.ElementTree as ElementTree
 
 from prophyc import model, six
@@ -169,6 +170,7 @@ def make_struct_members(xml_elem, dynamic_array=False):
             size = dimension.get("size", None)
             size2 = dimension.get("size2", None)
             if size2:
+                size, size2 = ["({})".format(x) if re.search(r"\W", str(x)) else x for x in (size, size2)]
                 size = "{}*{}".format(size, size2)
             if optional:
                 yield model.StructMember("has_" + xml_elem_name, "u32", docstring="implicit enabler for optional field")
-- 
2.43.0


From 172d196dc3a0abad99ee1eff143dc0839ef70578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:00:10 +0000
Subject: [PATCH 51/61] fix: let patch rules turn greedy arrays into other
 arrays

---
 prophyc/patch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophyc/patch.py b/prophyc/patch.py
index e6ae894..a5cdfd1 100644
--- a/prophyc/patch.py
+++ b/prophyc/patch.py
@@ -96,6 +96,7 @@ def _dynamic(node, patch_):
         raise Exception("Member not found: %s %s" % (node.name, patch_))
 
     mem = node.members[i]
+    mem.greedy = False
     mem.bound = len_name
     mem.size = None
     mem.optional = False
@@ -138,6 +139,7 @@ def _static(node, patch_):
     node.members[i].size = None
 
     mem = node.members[i]
+    mem.greedy = False
     mem.bound = None
     mem.size = size
     mem.optional = False
-- 
2.43.0


From f8407ed760c8abfa883a3baa189af127a2acd2c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:00:10 +0000
Subject: [PATCH 52/61] fix: apply the limited patch rule only to fixed arrays

---
 prophyc/patch.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophyc/patch.py b/prophyc/patch.py
index a5cdfd1..fb16d33 100644
--- a/prophyc/patch.py
+++ b/prophyc/patch.py
@@ -163,6 +163,8 @@ def _limited(node, patch_):
         raise Exception("Array len member not found: %s %s" % (node.name, patch_))
 
     mem = node.members[i]
+    if not mem.size:
+        raise Exception("Only fixed array can be made limited: %s %s" % (node.name, patch_))
     mem.bound = len_array
     mem.optional = False
     return node
-- 
2.43.0


From df467ba8e3a3960eece4b4d382831c99c662f0db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 04:17:13 +0000
Subject: [PATCH 53/61] fix: name anonymous types independently of the path of
 their file

---
 prophyc/parsers/sack.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/prophyc/parsers/sack.py b/prophyc/parsers/sack.py
index 7de3db2..c387ed1 100644
--- a/prophyc/parsers/sack.py
+++ b/prophyc/parsers/sack.py
@@ -50,6 +50,9 @@ class Builder(object):
             name = name.replace('enum ', '', 1)
         elif name.startswith('union '):
             name = name.replace('union ', '', 1)
+        if cursor.location.file:
+            path = cursor.location.file.name.decode()
+            name = name.replace(' at ' + path, ' at ' + os.path.basename(path))
         return re.sub('[^0-9a-zA-Z_]+', '__', name)
 
     def get_type_name(self, tp):
-- 
2.43.0


From 6424bd47681cbcbe681f1c2d10fcbb73f47a3d9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:25:02 +0000
Subject: [PATCH 54/61] fix: report clang diagnostics which have no location

Clang gives up after twenty errors with a diagnostic that belongs to no file.
Reporting it ended in AttributeError.
---
 prophyc/parsers/sack.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/prophyc/parsers/sack.py b/prophyc/parsers/sack.py
index c387ed1..16bc3c5 100644
--- a/prophyc/parsers/sack.py
+++ b/prophyc/parsers/sack.py
@@ -275,6 +275,8 @@ class SackParser(object):
                 self.warn(spelling, location)
 
     def _get_location(self, location, target_path):
+        if location.file is None:  # e.g. clang giving up after too many errors
+            return target_path.decode()
         location_file = location.file.name.decode()
         target_file_name = os.path.basename(target_path.decode())
         if os.path.basename(location_file) == target_file_name:
-- 
2.43.0


From 4e901fd67332ac0a0114300da15f5cafa27bfeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:31:14 +0000
Subject: [PATCH 55/61] fix: sack: report enumerators below 32 bits

Enumerators less than -2^31 were written as malformed hexadecimal numbers, which
Python could not import. They are now reported as not fitting in 32 bits.
---
 prophyc/parsers/sack.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophyc/parsers/sack.py b/prophyc/parsers/sack.py
index 16bc3c5..1194022 100644
--- a/prophyc/parsers/sack.py
+++ b/prophyc/parsers/sack.py
@@ -105,7 +105,7 @@ class Builder(object):
         def enum_member(cursor):
             name = cursor.spelling.decode()
             value = cursor.enum_value
-            if value < 0:
+            if -0x80000000 <= value < 0:
                 value = "0x%X" % (0x100000000 + value)
             else:
                 value = str(value)
-- 
2.43.0


From 49911282c49fbea54b22179521f28296afe60188 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:31:14 +0000
Subject: [PATCH 56/61] fix: make names with two leading underscores usable in
 Python

Isar and C++ types named like __T were mangled by Python when used as types of
members or as sizes, so that generated modules could not be imported.
---
 prophyc/generators/python.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index a77e3f2..4839eb5 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -22,8 +22,14 @@ def _generate_enum_constants(members):
     return u"\n".join((u"%s = %s" % (member.name, member.value) for member in members))
 
 
+def _form_reference(name):
+    """In a class body Python mangles names with two leading underscores."""
+    name = str(name)
+    return u"globals()['%s']" % name if name.startswith('__') and not name.endswith('__') else name
+
+
 def _form_struct_member(member):
-    prefixed_type = primitive_types.get(member.type_name, member.type_name)
+    prefixed_type = primitive_types.get(member.type_name, _form_reference(member.type_name))
     if member.optional:
         prefixed_type = u"%s.optional(%s)" % (libname, prefixed_type)
     if member.is_array:
@@ -31,7 +37,7 @@ def _form_struct_member(member):
         if member.bound:
             elem_strs.append(u"bound='%s'" % member.bound)
         if member.size:
-            elem_strs.append(u"size=%s" % member.size)
+            elem_strs.append(u"size=%s" % _form_reference(member.size))
         if member.type_name == 'byte':
             prefixed_type = u'%s.bytes(%s)' % (libname, ', '.join(elem_strs))
         else:
@@ -40,7 +46,7 @@ def _form_struct_member(member):
 
 
 def _form_union_member(member):
-    prefixed_type = primitive_types.get(member.type_name, member.type_name)
+    prefixed_type = primitive_types.get(member.type_name, _form_reference(member.type_name))
     return u"('%s', %s, %s)" % (member.name, prefixed_type, member.discriminator)
 
 
-- 
2.43.0


From d593e8a1f838ab45f170c3f13d1b23c3c1720f20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:31:14 +0000
Subject: [PATCH 57/61] fix: refuse isar names which are not identifiers

Names such as a-b were copied to generated code, which could not be imported or
compiled.
---
 prophyc/generators/base.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/prophyc/generators/base.py b/prophyc/generators/base.py
index 83e2390..7cf3e27 100644
--- a/prophyc/generators/base.py
+++ b/prophyc/generators/base.py
@@ -1,5 +1,6 @@
 import codecs
 import os
+import re
 
 from prophyc import model
 
@@ -24,6 +25,9 @@ def check_names(nodes, reserved_words, with_members=True):
     for node in nodes:
         if isinstance(node, model.Include):
             continue
+        for name in [node.name] + [member.name for member in getattr(node, "members", ())]:
+            if not re.match(r"[^\W\d]\w*$", name, re.UNICODE):
+                raise GenerateError("{}: name '{}' is not an identifier".format(node.name, name))
         names = [node.name]
         if isinstance(node, model.Enum) or with_members and isinstance(node, (model.Struct, model.Union)):
             names += [member.name for member in node.members]
-- 
2.43.0


From dbd19f23d9179831c86b63ee3545a2d4b01bb1c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:31:14 +0000
Subject: [PATCH 58/61] fix: make include guards out of file names which are
 not identifiers

Headers generated from a-b.prophy and a-c.prophy shared the guard that ends at the
hyphen, so that the second one included was skipped.
---
 prophyc/generators/base.py     | 5 +++++
 prophyc/generators/cpp.py      | 6 +++++-
 prophyc/generators/cpp_full.py | 6 +++++-
 3 files changed, 15 insertions(+), 2 deletions(-)

diff --git a/prophyc/generators/base.py b/prophyc/generators/base.py
index 7cf3e27..31c705e 100644
--- a/prophyc/generators/base.py
+++ b/prophyc/generators/base.py
@@ -36,6 +36,11 @@ def check_names(nodes, reserved_words, with_members=True):
                 raise GenerateError("{}: name '{}' is reserved in the generated language".format(node.name, name))
 
 
+def make_guard_name(base_name):
+    """Makes a part of a macro name out of any file name, different for different files."""
+    return re.sub(r"[^A-Za-z0-9_]", lambda m: "_%x_" % ord(m.group()), base_name)
+
+
 class GeneratorAbc(object):
     """
         Generator class implements one language that model is translated to.
diff --git a/prophyc/generators/cpp.py b/prophyc/generators/cpp.py
index df2a3f6..3deb8bd 100644
--- a/prophyc/generators/cpp.py
+++ b/prophyc/generators/cpp.py
@@ -1,5 +1,5 @@
 from prophyc import model
-from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_names
+from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_names, make_guard_name
 
 primitive_types = {
     'u8': 'uint8_t',
@@ -433,6 +433,10 @@ class _HppTranslator(TranslatorBase):
         _HppSwapDeclarations
     ]
 
+    @classmethod
+    def _block_post_process(cls, content, base_name, nodes):
+        return super(_HppTranslator, cls)._block_post_process(content, make_guard_name(base_name), nodes)
+
 
 class CppGenerator(GeneratorBase):
     top_level_translators = {
diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index 3af263d..d426a58 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -1,6 +1,6 @@
 from prophyc import model
 from prophyc.model import DISC_SIZE, BUILTIN_SIZES
-from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_names
+from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_names, make_guard_name
 from prophyc.generators.cpp import check_members, reserved_words
 
 BUILTIN2C = {
@@ -196,6 +196,10 @@ class _HppTranslator(TranslatorBase):
         _HppDefinitionsTranslator
     ]
 
+    @classmethod
+    def _block_post_process(cls, content, base_name, nodes):
+        return super(_HppTranslator, cls)._block_post_process(content, make_guard_name(base_name), nodes)
+
     @classmethod
     def _make_lines_splitter(cls, previous_node_type, current_node_type):
         if not previous_node_type:
-- 
2.43.0


From 627971788de39a729ba49b17ef605cce402bfeda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 05:31:14 +0000
Subject: [PATCH 59/61] fix: report included files that Python cannot import

An included file such as a-b.prophy or class.prophy resulted in an import statement
that is not valid Python.
---
 prophyc/generators/python.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/prophyc/generators/python.py b/prophyc/generators/python.py
index 4839eb5..f8e25a8 100644
--- a/prophyc/generators/python.py
+++ b/prophyc/generators/python.py
@@ -1,7 +1,8 @@
 import keyword
+import re
 
 from prophyc.generators import word_wrap
-from prophyc.generators.base import GeneratorBase, TranslatorBase, check_names
+from prophyc.generators.base import GenerateError, GeneratorBase, TranslatorBase, check_names
 
 libname = u"prophy"
 primitive_types = {x + y: u"%s.%s" % (libname, x + y) for x in u"uir" for y in ["8", "16", "32", "64"]}
@@ -81,6 +82,10 @@ import {0}
         if not included:
             return u""
 
+        module = include.name.split("/")[-1]
+        if not re.match(r"[^\W\d]\w*$", module, re.UNICODE) or module in keyword.kwlist:
+            raise GenerateError("{}: included file is not named as a Python module".format(include.name))
+
         def translate(relative_import_indicator):
             statement_begin = u"from %s%s import " % (relative_import_indicator, include.name.split("/")[-1])
             symbols = u", ".join(included)
-- 
2.43.0


From b85e2a2e88fd5f52d9cbe6739bb7ccfee5fffb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 10:57:42 +0000
Subject: [PATCH 60/61] fix: visit every supplementary include once

Files that include each other's neighbours through many paths made the
flattening of -S definitions take exponential time. A list of nodes that
has been visited is now skipped.
---
 prophyc/__init__.py     | 5 +++++
 prophyc/parsers/sack.py | 8 ++++++--
 2 files changed, 11 insertions(+), 2 deletions(-)

diff --git a/prophyc/__init__.py b/prophyc/__init__.py
index 858ba03..a5a7cc7 100644
--- a/prophyc/__init__.py
+++ b/prophyc/__init__.py
@@ -145,7 +145,12 @@ def get_basename(path):
 
 
 def flatten_included_defs(supple_nodes):
+    visited = []
+
     def get_nodes_and_names(nodes_list):
+        if any(nodes_list is other for other in visited):
+            return
+        visited.append(nodes_list)
         for elem in nodes_list:
             if isinstance(elem, model.Include):
                 yield elem.name, elem.members
diff --git a/prophyc/parsers/sack.py b/prophyc/parsers/sack.py
index 1194022..c3590ee 100644
--- a/prophyc/parsers/sack.py
+++ b/prophyc/parsers/sack.py
@@ -166,10 +166,14 @@ class SupplementaryDefs(object):
         self.stubs_lines_count = len(self.stub_defs)
 
     @staticmethod
-    def flatten_nodes(nodes_list):
+    def flatten_nodes(nodes_list, visited=None):
+        visited = [] if visited is None else visited
+        if any(nodes_list is other for other in visited):
+            return
+        visited.append(nodes_list)
         for node in nodes_list:
             if isinstance(node, model.Include):
-                for node in SupplementaryDefs.flatten_nodes(node.members):
+                for node in SupplementaryDefs.flatten_nodes(node.members, visited):
                     yield node
             else:
                 yield node
-- 
2.43.0


From 4793f10b6fc22f1c101d99e04b16d624bca8b995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Sun, 15 Nov 2026 11:02:25 +0000
Subject: [PATCH 61/61] fix: refuse structs without members in C++ full output

A patch can remove all the members of a struct. The generated constructor
and get_byte_size() of such a struct did not compile.
---
 prophyc/generators/cpp_full.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/prophyc/generators/cpp_full.py b/prophyc/generators/cpp_full.py
index d426a58..4686407 100644
--- a/prophyc/generators/cpp_full.py
+++ b/prophyc/generators/cpp_full.py
@@ -650,7 +650,7 @@ class CppFullGenerator(GeneratorBase):
         for n in nodes:
             if isinstance(n, (model.Struct, model.Union)) and n.byte_size is None:
                 raise GenerateError('{0} byte size unknown'.format(n.name))
-            if isinstance(n, (model.Enum, model.Union)) and not n.members:
+            if isinstance(n, (model.Enum, model.Struct, model.Union)) and not n.members:
                 raise GenerateError('{0} has no members'.format(n.name))
             if isinstance(n, model.Struct):
                 occured = set()
-- 
2.43.0

