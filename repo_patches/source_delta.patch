From 27cc8b5895d6f48831e838303d2d78941708234a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:47 +0000
Subject: [PATCH 01/14] fix: report an encoding error for values whose repr()
 fails

Rejecting an int beyond the int-to-str digit limit raised ValueError from
repr() instead of ValueOutOfBounds, also out of is_encodable().
---
 eth_abi/utils/string.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/eth_abi/utils/string.py b/eth_abi/utils/string.py
index abd76b8..1f29888 100644
--- a/eth_abi/utils/string.py
+++ b/eth_abi/utils/string.py
@@ -8,7 +8,12 @@ def abbr(value: Any, limit: int = 79) -> str:
     Converts a value into its string representation and abbreviates that
     representation based on the given length `limit` if necessary.
     """
-    rep = repr(value)
+    try:
+        rep = repr(value)
+    except Exception:
+        # e.g. an int with more digits than python is willing to convert to a
+        # string, or an object with a broken `__repr__`
+        rep = object.__repr__(value)
 
     if len(rep) > limit:
         if limit < 3:
-- 
2.43.0


From 3ec8a9c3c0d671492a2f062ee1f57d0d47737997 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:47 +0000
Subject: [PATCH 02/14] fix: reject text that is not encodable as UTF-8 with an
 EncodingError

is_encodable("string", "\\ud800") was True while encode() raised
UnicodeEncodeError.
---
 eth_abi/encoding.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index 3d90518..4138676 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -544,6 +544,15 @@ class TextStringEncoder(BaseEncoder):
         if not is_text(value):
             cls.invalidate_value(value)
 
+        try:
+            codecs.encode(value, "utf8")
+        except UnicodeEncodeError:
+            cls.invalidate_value(
+                value,
+                exc=IllegalValue,
+                msg="text cannot be encoded as utf-8",
+            )
+
     @classmethod
     def encode(cls, value):
         cls.validate_value(value)
-- 
2.43.0


From 84ab39cf03d0af0552cc164f2ac0d9902e6c7345 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:47 +0000
Subject: [PATCH 03/14] fix: support the "byte" alias outside of compound types

"byte[]" and "(byte)" were normalized to bytes1 while a top level "byte"
had no coder.
---
 eth_abi/registry.py          | 11 +++++++++++
 eth_abi/tools/_strategies.py |  5 +++++
 2 files changed, 16 insertions(+)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index 29b8fc5..a463cbe 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -555,6 +555,12 @@ registry.register(
     decoding.BytesDecoder,
     label="function",
 )
+registry.register(
+    BaseEquals("byte", with_sub=False),
+    encoding.BytesEncoder,
+    decoding.BytesDecoder,
+    label="byte",
+)
 registry.register(
     BaseEquals("string"),
     encoding.TextStringEncoder,
@@ -621,6 +627,11 @@ registry_packed.register_encoder(
     encoding.PackedBytesEncoder,
     label="function",
 )
+registry_packed.register_encoder(
+    BaseEquals("byte", with_sub=False),
+    encoding.PackedBytesEncoder,
+    label="byte",
+)
 registry_packed.register_encoder(
     BaseEquals("string"),
     encoding.PackedTextStringEncoder,
diff --git a/eth_abi/tools/_strategies.py b/eth_abi/tools/_strategies.py
index 201ff74..fb66b6e 100644
--- a/eth_abi/tools/_strategies.py
+++ b/eth_abi/tools/_strategies.py
@@ -218,6 +218,11 @@ strategy_registry.register_strategy(
     get_bytes_strategy,
     label="function",
 )
+strategy_registry.register_strategy(
+    BaseEquals("byte", with_sub=False),
+    get_bytes_strategy,
+    label="byte",
+)
 strategy_registry.register_strategy(
     BaseEquals("string", with_sub=False),
     string_strategy,
-- 
2.43.0


From 0cc968d9959f455f3128ad5d5ea59455183286f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:47 +0000
Subject: [PATCH 04/14] fix: reject bool types with a size suffix

"bool8" and "bool8x9" were accepted as bool.
---
 eth_abi/grammar.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/eth_abi/grammar.py b/eth_abi/grammar.py
index fe24044..16228ac 100644
--- a/eth_abi/grammar.py
+++ b/eth_abi/grammar.py
@@ -395,6 +395,11 @@ class BasicType(ABIType):
             if sub is not None:
                 self.invalidate("address cannot have suffix")
 
+        # Check validity of bool type
+        elif base == "bool":
+            if sub is not None:
+                self.invalidate("bool cannot have suffix")
+
 
 TYPE_ALIASES = {
     "int": "int256",
-- 
2.43.0


From 68dd76cab4e0d82f67a23963c0aecebb5846653d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:33 +0000
Subject: [PATCH 05/14] fix: raise a decoding error for byte strings of
 excessive claimed length

A claimed length of 2**63 or more raised OverflowError.
---
 eth_abi/decoding.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 71d087a..5fe8c7b 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -5,6 +5,7 @@ from collections.abc import (
 )
 import decimal
 import io
+import sys
 from typing import (
     Any,
 )
@@ -596,7 +597,8 @@ class ByteStringDecoder(SingleDecoder):
         data_length = decode_uint_256(stream)
         padded_length = ceil32(data_length)
 
-        data = stream.read(padded_length)
+        # `read` only accepts index-sized integers
+        data = stream.read(min(padded_length, sys.maxsize))
 
         if self.strict:
             if len(data) < padded_length:
-- 
2.43.0


From 3e9e534c72aeeaba0abba14e63dc1e6656897b77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:33 +0000
Subject: [PATCH 06/14] fix: do not return truncated byte strings from
 non-strict decoding

Non-strict mode is about padding; with fewer bytes left than the claimed
length it silently returned a shorter value.
---
 eth_abi/decoding.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 5fe8c7b..10e5453 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -611,6 +611,10 @@ class ByteStringDecoder(SingleDecoder):
                 raise NonEmptyPaddingBytes(
                     f"Padding bytes were not empty: {repr(padding_bytes)}"
                 )
+        elif len(data) < data_length:
+            raise InsufficientDataBytes(
+                f"Tried to read {data_length} bytes, only got {len(data)} bytes"
+            )
 
         return data[:data_length]
 
-- 
2.43.0


From d4a474adf20393c35b9024f45743a8d8c0910634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:33 +0000
Subject: [PATCH 07/14] fix: keep the strict flag of a decode call from leaking
 into later calls

For a registered decoder instance the flag was set on the instance itself
while the lookup is cached, so that one non-strict decode made all later
strict decodes of the type non-strict.
---
 eth_abi/registry.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index a463cbe..b7e25bc 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -478,7 +478,10 @@ class ABIRegistry(Copyable, BaseRegistry):
             # Set a transient flag each time a call is made to ``get_decoder()``.
             # Only dynamic decoders should be allowed these looser constraints. All
             # other decoders should keep the default value of ``True``.
-            decoder.strict = strict
+            if getattr(decoder, "strict", None) is not strict:
+                # The decoder may be a registered instance, shared by all calls.
+                decoder = copy.copy(decoder)
+                decoder.strict = strict
 
         return decoder
 
-- 
2.43.0


From 3fd612c0ea3efe270e4b1b548137da126cb655c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:33 +0000
Subject: [PATCH 08/14] fix: reject tuple pointers into heads with nested
 static members

The head length counted a static tuple or a nested static array as fewer
words than it occupies, so that pointers into the end of the head were
followed.
---
 eth_abi/decoding.py | 27 +++++++++++----------------
 1 file changed, 11 insertions(+), 16 deletions(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index 10e5453..d031535 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -194,31 +194,26 @@ class TupleDecoder(BaseDecoder):
         Verify that all pointers point to a valid location in the stream.
         """
         current_location = stream.tell()
-        len_of_head = sum(
-            getattr(decoder, "array_size", 1) for decoder in self.decoders
-        )
-        end_of_offsets = current_location + 32 * len_of_head
         total_stream_length = len(stream.getbuffer())
+        pointers = []
         for decoder in self.decoders:
             if isinstance(decoder, HeadTailDecoder):
                 # the next 32 bytes are a pointer
                 offset = decode_uint_256(stream)
-                indicated_idx = current_location + offset
-                if (
-                    indicated_idx < end_of_offsets
-                    or indicated_idx >= total_stream_length
-                ):
-                    # the pointer is indicating its data is located either within the
-                    # offsets section of the stream or beyond the end of the stream,
-                    # both of which are invalid
-                    raise InvalidPointer(
-                        "Invalid pointer in tuple at location "
-                        f"{stream.tell() - 32} in payload"
-                    )
+                pointers.append((stream.tell() - 32, current_location + offset))
             else:
                 # the next 32 bytes are not a pointer, so progress the stream per
                 # the decoder
                 decoder(stream)
+        end_of_offsets = stream.tell()
+        for location, indicated_idx in pointers:
+            if indicated_idx < end_of_offsets or indicated_idx >= total_stream_length:
+                # the pointer is indicating its data is located either within the
+                # offsets section of the stream or beyond the end of the stream,
+                # both of which are invalid
+                raise InvalidPointer(
+                    f"Invalid pointer in tuple at location {location} in payload"
+                )
         # return the stream to its original location for actual decoding
         stream.seek(current_location)
 
-- 
2.43.0


From 99d8ac354cb8b0c2e03603f8895c47aadae5a6fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:33 +0000
Subject: [PATCH 09/14] fix: do not decode static tuples twice at every nesting
 level

The pointer validation pass decodes static members, so that decoding time
doubled with every level of static tuple nesting.
---
 eth_abi/decoding.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index d031535..cbd3324 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -193,6 +193,10 @@ class TupleDecoder(BaseDecoder):
         """
         Verify that all pointers point to a valid location in the stream.
         """
+        if not self.is_dynamic:
+            # no pointers to verify
+            return
+
         current_location = stream.tell()
         total_stream_length = len(stream.getbuffer())
         pointers = []
-- 
2.43.0


From 20bd3b4e04785ae4f7057efb29c5da11ea3e521c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:33 +0000
Subject: [PATCH 10/14] fix: support callable coders as array items

Callables could be registered and used at top level and in tuples but
raised AttributeError in arrays.
---
 eth_abi/decoding.py | 4 ++--
 eth_abi/encoding.py | 7 +++++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/eth_abi/decoding.py b/eth_abi/decoding.py
index cbd3324..e7bacd5 100644
--- a/eth_abi/decoding.py
+++ b/eth_abi/decoding.py
@@ -272,7 +272,7 @@ class BaseArrayDecoder(BaseDecoder):
         super().__init__(**kwargs)
 
         # Use a head-tail decoder to decode dynamic elements
-        if self.item_decoder.is_dynamic:
+        if getattr(self.item_decoder, "is_dynamic", False):
             self.item_decoder = HeadTailDecoder(
                 tail_decoder=self.item_decoder,
             )
@@ -329,7 +329,7 @@ class SizedArrayDecoder(BaseArrayDecoder):
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
 
-        self.is_dynamic = self.item_decoder.is_dynamic
+        self.is_dynamic = getattr(self.item_decoder, "is_dynamic", False)
 
     @to_tuple
     def decode(self, stream):
diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index 4138676..fd1af4a 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -596,7 +596,10 @@ class BaseArrayEncoder(BaseEncoder):
             )
 
         for item in value:
-            self.item_encoder.validate_value(item)
+            try:
+                self.item_encoder.validate_value(item)
+            except AttributeError:
+                self.item_encoder(item)
 
     def encode_elements(self, value):
         self.validate_value(value)
@@ -672,7 +675,7 @@ class SizedArrayEncoder(BaseArrayEncoder):
     def __init__(self, **kwargs):
         super().__init__(**kwargs)
 
-        self.is_dynamic = self.item_encoder.is_dynamic
+        self.is_dynamic = getattr(self.item_encoder, "is_dynamic", False)
 
     def validate(self):
         super().validate()
-- 
2.43.0


From 5fab671e45ae2f3045061df2dc7f3063512af344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:33 +0000
Subject: [PATCH 11/14] fix: drop the label when a registration is removed by
 an equal lookup

The label was searched by identity, so that it stayed behind, blocked
re-registration and made removal by label fail with a bare KeyError.
---
 eth_abi/registry.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/eth_abi/registry.py b/eth_abi/registry.py
index b7e25bc..7f0b0c4 100644
--- a/eth_abi/registry.py
+++ b/eth_abi/registry.py
@@ -123,7 +123,7 @@ class PredicateMapping(Copyable):
         # Both keys and values in `_labeled_predicates` are unique since the
         # `add` method enforces this
         for key, value in self._labeled_predicates.items():
-            if value is predicate:
+            if value == predicate:
                 return key
 
         raise ValueError(
-- 
2.43.0


From 44d325493830f76e23e0d7fd6d5f52978f3e8ee6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:34 +0000
Subject: [PATCH 12/14] fix: reject numbers that are neither int nor Decimal as
 fixed-point values

complex and Fraction values passed the type check and then raised TypeError
from encode() and is_encodable().
---
 eth_abi/encoding.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index fd1af4a..2b56232 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -18,7 +18,6 @@ from eth_utils import (
     is_bytes,
     is_integer,
     is_list_like,
-    is_number,
     is_text,
     to_canonical_address,
 )
@@ -334,7 +333,7 @@ class BaseFixedEncoder(NumberEncoder):
 
     @staticmethod
     def type_check_fn(value):
-        return is_number(value) and not isinstance(value, float)
+        return isinstance(value, (int, decimal.Decimal))
 
     @staticmethod
     def illegal_value_fn(value):
-- 
2.43.0


From a5d587807e2780d1c83b5343ac708c87f52a2564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:34 +0000
Subject: [PATCH 13/14] fix: raise ValueError for type strings with unparsable
 sizes

A size of more than 4300 digits raised VisitationError.
---
 eth_abi/grammar.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/eth_abi/grammar.py b/eth_abi/grammar.py
index 16228ac..a002c4c 100644
--- a/eth_abi/grammar.py
+++ b/eth_abi/grammar.py
@@ -49,6 +49,9 @@ class NodeVisitor(parsimonious.NodeVisitor):  # type: ignore[misc] # subclasses
 
     grammar = grammar
 
+    # let errors about sizes, e.g. with too many digits for `int`, through as they are
+    unwrapped_exceptions = (ValueError,)
+
     def visit_non_zero_tuple(self, node, visited_children):
         # Ignore left and right parens
         _, first, rest, _ = visited_children
-- 
2.43.0


From c9e0a66fcea7b91de9fe73eea8d14489a35423ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:34:58 +0000
Subject: [PATCH 14/14] fix: DynamicArrayEncoder refuses values without a
 length with EncodingError

Used on its own, the encoder took len() of the value before validating
it, so a value that is no list or tuple ended in TypeError and not in the
EncodingTypeError that every other encoder raises.
---
 eth_abi/encoding.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/eth_abi/encoding.py b/eth_abi/encoding.py
index 2b56232..b12feed 100644
--- a/eth_abi/encoding.py
+++ b/eth_abi/encoding.py
@@ -703,8 +703,9 @@ class DynamicArrayEncoder(BaseArrayEncoder):
     is_dynamic = True
 
     def encode(self, value):
-        encoded_size = encode_uint_256(len(value))
+        # Validates the value, so it has to come before the value's length is taken
         encoded_elements = self.encode_elements(value)
+        encoded_size = encode_uint_256(len(value))
         encoded_value = encoded_size + encoded_elements
 
         return encoded_value
-- 
2.43.0

