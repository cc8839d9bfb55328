From 4ca95db8e46aaffe660940166fd1b649ccc80866 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:36 +0000
Subject: [PATCH 01/46] fix: record regexps in the serialized object log when
 encoding

Every JavaScript object takes the next serialized ID when it is written. Not
recording regexps made all later object references resolve to wrong objects.
---
 src/v8serialize/encode.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 99d8331..b212000 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -386,6 +386,7 @@ class WritableTagStream:
     def write_js_regexp(
         self, regexp: JSRegExp, *, identity: object | None = None
     ) -> None:
+        self.objects.record_reference(regexp if identity is None else identity)
         self.write_tag(SerializationTag.kRegExp)
         # We can write any of the string formats here, but just UTF-8 seems fine
         self.write_string_utf8(regexp.source)
@@ -942,7 +943,7 @@ class TagWriter(EncodeStepObject):
     def serialize_python_regexp(
         self, value: re.Pattern[AnyStr], /, ctx: EncodeContext, next: EncodeNextFn
     ) -> None:
-        ctx.stream.write_js_regexp(JSRegExp.from_python_pattern(value))
+        ctx.stream.write_js_regexp(JSRegExp.from_python_pattern(value), identity=value)
 
     @encode.register(JSErrorData)
     def serialize_js_error(
-- 
2.43.0


From ecc13f00671fff4cde3e0175eb52dbea0f7fc104 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:06:30 +0000
Subject: [PATCH 02/46] fix: record errors without a cause in the serialized
 object log when encoding

As with errors that have a cause, the decoder assigns them a serialized ID, so
object references following such an error resolved to wrong objects.
---
 src/v8serialize/encode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index b212000..9a01419 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -421,6 +421,8 @@ class WritableTagStream:
                     "cause without CircularErrorCause enabled",
                 ):
                     ctx.encode_object(cause)
+        else:
+            self.objects.record_reference(identity)
         self.write_varint(SerializationErrorTag.End)
 
     def write_js_date(self, value: datetime, *, identity: object | None = None) -> None:
-- 
2.43.0


From f43255cd057c08236a84e5dccb1fe5dcd63e4bdc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:08 +0000
Subject: [PATCH 03/46] fix: record shared and transferred ArrayBuffers when
 decoding

The encoder (and V8) assign them serialized IDs; the decoder did not, so later
object references resolved to wrong objects.
---
 src/v8serialize/decode.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 03abaa3..9e4a910 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -766,7 +766,9 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kSharedArrayBuffer)
         index = self.read_uint32()
-        return shared_array_buffer(buffer_id=SharedArrayBufferId(index))
+        result = shared_array_buffer(buffer_id=SharedArrayBufferId(index))
+        self.objects.record_reference(result)
+        return result
 
     def _read_js_array_buffer_transfer(
         self,
@@ -777,7 +779,9 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kArrayBufferTransfer)
         transfer_id = self.read_uint32()
-        return array_buffer_transfer(transfer_id=TransferId(transfer_id))
+        result = array_buffer_transfer(transfer_id=TransferId(transfer_id))
+        self.objects.record_reference(result)
+        return result
 
     def read_js_array_buffer_view(
         self,
-- 
2.43.0


From 38cb1700dce8b4d02f9a6cb8d34e99bf86d7cda7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:07:46 +0000
Subject: [PATCH 04/46] fix: assign serialized IDs to host objects

V8 gives every host object a serialized ID. Without one, object references
following host object data (e.g. Node.js Buffers) resolved to wrong objects.
---
 src/v8serialize/decode.py | 7 +++++--
 src/v8serialize/encode.py | 1 +
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 9e4a910..fdfafae 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -823,8 +823,11 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kHostObject)
         if isinstance(deserializer, HostObjectDeserializerObj):
-            return deserializer.deserialize_host_object(stream=self)
-        return deserializer(stream=self)
+            result = deserializer.deserialize_host_object(stream=self)
+        else:
+            result = deserializer(stream=self)
+        self.objects.record_reference(result)
+        return result
 
     def read_v8_shared_object_reference(
         self, tag: bool = False
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 9a01419..6975144 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -690,6 +690,7 @@ class WritableTagStream:
     def write_host_object(
         self, value: T, *, serializer: HostObjectSerializer[T]
     ) -> None:
+        self.objects.record_reference(value)
         self.write_tag(SerializationTag.kHostObject)
         if isinstance(serializer, HostObjectSerializerObj):
             serializer.serialize_host_object(value=value, stream=self)
-- 
2.43.0


From b5ab5c7d13e5d5f83bbb3adf064917fdb30379a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:10:22 +0000
Subject: [PATCH 05/46] fix: detect truncated resizable ArrayBuffers

The available data was checked before the max byte length was read, so data
truncated by the size of that varint was decoded as a shorter buffer.
---
 src/v8serialize/decode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index fdfafae..82bc95f 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -736,11 +736,11 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kResizableArrayBuffer)
         byte_length = self.read_uint32()
-        if self.pos + byte_length >= len(self.data):
+        max_byte_length = self.read_uint32()
+        if self.pos + byte_length > len(self.data):
             self.throw(
                 f"ArrayBuffer byte length exceeds available data: {byte_length=}"
             )
-        max_byte_length = self.read_uint32()
         if max_byte_length < byte_length:
             self.throw(
                 f"ResizableArrayBuffer max byte length is less than current "
-- 
2.43.0


From 4ce92f81980fbec891b202bfd52ebee51f5a4288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:00 +0000
Subject: [PATCH 06/46] fix: raise DecodeV8SerializeError for dates datetime
 cannot represent

---
 src/v8serialize/decode.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 82bc95f..c866397 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -518,7 +518,12 @@ class ReadableTagStream:
         if tag:
             self.read_tag(SerializationTag.kDate)
         epoch_ms = self.read_double(tag=False)
-        result = datetime.fromtimestamp(epoch_ms / 1000, tz=tz)
+        try:
+            result = datetime.fromtimestamp(epoch_ms / 1000, tz=tz)
+        except (ValueError, OverflowError, OSError) as e:
+            self.throw(
+                f"Date is not representable as a datetime: {epoch_ms=}", cause=e
+            )
         return ReferencedObject(self.objects.record_reference(result), result)
 
     def read_jsmap(
-- 
2.43.0


From 2f9552e74b7d2e8648769857a75dd3f3a5d42a81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:11:34 +0000
Subject: [PATCH 07/46] fix: raise DecodeV8SerializeError for invalid regexp
 flags

---
 src/v8serialize/decode.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index c866397..4bb4c89 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -408,8 +408,16 @@ class ReadableTagStream:
             self.read_tag(tag=SerializationTag.kRegExp)
         source = ctx.decode_object(tag=self.read_tag(tag=JS_STRING_TAGS))
         assert isinstance(source, str)
-        flags = JSRegExpFlag(self.read_varint())
-        result = JSRegExp(source, flags)
+        raw_flags = self.read_varint()
+        known_flags = 0
+        for flag in JSRegExpFlag:
+            known_flags |= flag
+        if raw_flags & ~known_flags:
+            self.throw(f"RegExp has unknown flags: {hex(raw_flags)}")
+        try:
+            result = JSRegExp(source, JSRegExpFlag(raw_flags))
+        except ValueError as e:
+            self.throw("RegExp flags are not valid", cause=e)
         return self.objects.record_reference(result), result
 
     def read_error_tag(self) -> SerializationErrorTag:
-- 
2.43.0


From 252e76661b90a0e3ab367e2fa0b0dd0ef14e1f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:25 +0000
Subject: [PATCH 08/46] fix: raise DecodeV8SerializeError for views that do not
 fit their buffer

---
 src/v8serialize/decode.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 4bb4c89..2feae39 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -81,6 +81,7 @@ from v8serialize.jstypes._v8 import V8SharedObjectReference, V8SharedValueId
 from v8serialize.jstypes.jsarray import JSArray
 from v8serialize.jstypes.jsbuffers import (
     JSArrayBuffer,
+    JSArrayBufferError,
     JSArrayBufferTransfer,
     JSDataView,
     JSSharedArrayBuffer,
@@ -819,14 +820,19 @@ class ReadableTagStream:
         if self.version >= 14:  # flags field was added in v14
             flags = ArrayBufferViewFlags(self.read_varint())
 
-        result = array_buffer_view(
-            buffer=backing_buffer,
-            format=ArrayBufferViewTag(raw_view_tag),
-            byte_offset=byte_offset,
-            byte_length=(
-                None if ArrayBufferViewFlags.IsLengthTracking in flags else byte_length
-            ),
-        )
+        try:
+            result = array_buffer_view(
+                buffer=backing_buffer,
+                format=ArrayBufferViewTag(raw_view_tag),
+                byte_offset=byte_offset,
+                byte_length=(
+                    None
+                    if ArrayBufferViewFlags.IsLengthTracking in flags
+                    else byte_length
+                ),
+            )
+        except JSArrayBufferError as e:
+            self.throw("ArrayBufferView does not fit its ArrayBuffer", cause=e)
         self.objects.record_reference(result)
         return result
 
-- 
2.43.0


From f343ddc1f89d7363554dede4a3f366685ec8bb6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:13:00 +0000
Subject: [PATCH 09/46] fix: report invalid error tags at the end of the data

The error message read the byte following the tag, raising IndexError when the
data ends with the invalid tag.
---
 src/v8serialize/decode.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 2feae39..d8962e1 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -427,8 +427,7 @@ class ReadableTagStream:
         if code in SerializationErrorTag:
             return SerializationErrorTag(code)
         self.throw(
-            f"Expected an error tag but found {self.data[self.pos]} "
-            f"(not a valid error tag)"
+            f"Expected an error tag but found {code} (not a valid error tag)"
         )
 
     @overload
-- 
2.43.0


From 52522600973b056b079e5aa4f71a46f2076147e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:16:31 +0000
Subject: [PATCH 10/46] fix: decode dates with exact milliseconds

A float of seconds is not precise enough for distant dates, so decoded times
were off by up to 28us after the year 2242.
---
 src/v8serialize/decode.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index d8962e1..6aba394 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -527,7 +527,12 @@ class ReadableTagStream:
             self.read_tag(SerializationTag.kDate)
         epoch_ms = self.read_double(tag=False)
         try:
-            result = datetime.fromtimestamp(epoch_ms / 1000, tz=tz)
+            # Convert whole seconds and milliseconds separately, as a float of
+            # seconds is not precise enough for dates in the distant future.
+            seconds, ms = divmod(epoch_ms, 1000)
+            result = datetime.fromtimestamp(seconds, tz=tz).replace(
+                microsecond=min(round(ms * 1000), 999_999)
+            )
         except (ValueError, OverflowError, OSError) as e:
             self.throw(
                 f"Date is not representable as a datetime: {epoch_ms=}", cause=e
-- 
2.43.0


From 904b261a7acd46b173d351f2665209ea45ff50be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:17:06 +0000
Subject: [PATCH 11/46] fix: encode dates with whole milliseconds

Multiplying a float of seconds by 1000 results in fractions of a millisecond
less than the time being encoded, which JavaScript truncates: 1.001 seconds
was encoded as 1000.9999999999999, i.e. 1000 ms.
---
 src/v8serialize/encode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 6975144..55fecb8 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -426,7 +426,10 @@ class WritableTagStream:
         self.write_varint(SerializationErrorTag.End)
 
     def write_js_date(self, value: datetime, *, identity: object | None = None) -> None:
-        epoch_ms = value.timestamp() * 1000
+        # Convert whole seconds and microseconds separately, as a float of
+        # seconds is not precise enough to hold every whole millisecond.
+        seconds = value.replace(microsecond=0).timestamp()
+        epoch_ms = seconds * 1000 + value.microsecond / 1000
         self.objects.record_reference(value if identity is None else identity)
         self.write_tag(SerializationTag.kDate)
         self.write_double(epoch_ms, tag=None)
-- 
2.43.0


From ef666035edb005c237bea294fa45cf818e9b3b43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:02 +0000
Subject: [PATCH 12/46] fix: do not merge equal values that are encoded
 differently

Deduplication replaced values by earlier ones that compare equal, although they
stand for different JavaScript values: -0.0 and 0.0, (1,) and (True,), boxed
zeros, ambiguous datetimes and views of different buffers.
---
 src/v8serialize/encode.py | 29 +++++++++++++++++++++++++++--
 1 file changed, 27 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 55fecb8..5271de7 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -2,6 +2,7 @@
 
 from __future__ import annotations
 
+import math
 import re
 import struct
 from collections import abc
@@ -798,6 +799,28 @@ See Also
 """
 
 
+def _deduplication_key(value: object) -> object:
+    """Get a hashable key that distinguishes equal but differently-encoded values."""
+    if isinstance(value, float):
+        return type(value), value, math.copysign(1, value)  # 0.0 == -0.0
+    if isinstance(value, tuple):
+        return type(value), tuple(_deduplication_key(x) for x in value)
+    if isinstance(value, frozenset):
+        return type(value), frozenset(_deduplication_key(x) for x in value)
+    if isinstance(value, datetime):
+        return type(value), value, value.fold
+    if isinstance(value, JSPrimitiveObject):
+        return type(value), value.tag, _deduplication_key(value.value)
+    if isinstance(value, JSArrayBufferView):  # equal if their elements are equal
+        return (
+            type(value),
+            _deduplication_key(value.backing_buffer),
+            value.item_offset,
+            value.item_length,
+        )
+    return type(value), value
+
+
 @dataclass(init=False, **slots_if310())
 class DefaultEncodeContext(EncodeContext):
     encode_steps: Sequence[EncodeStep]
@@ -818,7 +841,7 @@ class DefaultEncodeContext(EncodeContext):
         self.stream = WritableTagStream() if stream is None else stream
 
         self._memoized = lru_cache(maxsize=deduplicate_max_size, typed=True)(
-            lambda x: x
+            lambda value, key: value
         )
 
     def __encode_object_with_step(self, value: object, *, i: int) -> None:
@@ -848,7 +871,9 @@ class DefaultEncodeContext(EncodeContext):
     def deduplicate(self, value: T) -> T:
         if getattr(value, "__hash__", None) is not None:
             try:
-                return self._memoized(value)  # type: ignore[no-any-return]
+                return self._memoized(  # type: ignore[no-any-return]
+                    value, _deduplication_key(value)
+                )
             except Exception:  # when an object nested in value is not hashable
                 pass
         return value
-- 
2.43.0


From b8b2066c64c5e66049e8f580ff14ae61726e6397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:51 +0000
Subject: [PATCH 13/46] fix: raise EncodeV8SerializeError for strings with lone
 surrogates

---
 src/v8serialize/encode.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 5271de7..406b942 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -283,7 +283,12 @@ class WritableTagStream:
             Literal[SerializationTag.kTwoByteString] | None
         ) = SerializationTag.kTwoByteString,
     ) -> None:
-        encoded = value.encode("utf-16-le")
+        try:
+            encoded = value.encode("utf-16-le")
+        except UnicodeEncodeError as e:
+            raise EncodeV8SerializeError(
+                "Attempted to encode string that is not valid Unicode text"
+            ) from e
         tag_pos = self.pos
         self.write_tag(tag)
         self.write_varint(len(encoded))
@@ -306,7 +311,12 @@ class WritableTagStream:
         **Note: We never encode Utf8String at runtime, but we use it to test the
         decoder. The V8 implementation only decodes Utf8String.**
         """
-        encoded = value.encode("utf-8")
+        try:
+            encoded = value.encode("utf-8")
+        except UnicodeEncodeError as e:
+            raise EncodeV8SerializeError(
+                "Attempted to encode string that is not valid Unicode text"
+            ) from e
         self.write_tag(tag)
         self.write_varint(len(encoded))
         self.data.extend(encoded)
-- 
2.43.0


From 41f1d8364f0949ac22cd891e9887b2ad0dd41b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:20 +0000
Subject: [PATCH 14/46] fix: keep the object key constraint when writing
 constants

write_constant() replaced the active tag constraint with its own, so constants
could be written as object keys, which makes the data unreadable.
---
 src/v8serialize/encode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 406b942..eacb514 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -239,8 +239,9 @@ class WritableTagStream:
         self.write_varint(_encode_zigzag(n))
 
     def write_constant(self, constant: ConstantTags) -> None:
-        with self.constrain_tags(JS_CONSTANT_TAGS):
-            self.write_tag(constant)
+        if constant not in JS_CONSTANT_TAGS:
+            raise EncodeV8SerializeError(f"Not a constant tag: {constant.name}")
+        self.write_tag(constant)
 
     def write_header(self) -> None:
         """Write the V8 serialization stream header."""
-- 
2.43.0


From 3a95d01930af99722e6523f4d0daee3aa93a0b74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:12 +0000
Subject: [PATCH 15/46] fix: write view flags that match the serialized
 ArrayBuffer

Views were flagged as resizable and length-tracking even when their buffer was
written as a plain ArrayBuffer, because it is a bytearray or because the
ResizableArrayBuffers feature is not enabled. V8 refuses to read such views.
---
 src/v8serialize/encode.py | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index eacb514..582dcd3 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -691,14 +691,24 @@ class WritableTagStream:
         self.write_tag(SerializationTag.kArrayBufferView)
         self.write_varint(buffer_view.view_tag.value)
         self.write_uint32(buffer_view.byte_offset, tag=None)
-        # 0 / None when flags.IsBufferResizable
-        self.write_uint32(buffer_view.byte_length or 0, tag=None)
 
+        # The flags must match the way the backing buffer was written. A buffer
+        # that is not written as resizable has views with fixed lengths.
         flags = ArrayBufferViewFlags(0)
-        if buffer_view.is_backing_buffer_resizable:
+        byte_length = buffer_view.byte_length
+        if (
+            buffer_view.is_backing_buffer_resizable
+            and SerializationFeature.ResizableArrayBuffers in self.features
+            # bytearrays are resizable, but are written as plain ArrayBuffers
+            and not isinstance(
+                getattr(buffer_view, "backing_buffer", None), (bytearray, memoryview)
+            )
+        ):
             flags |= ArrayBufferViewFlags.IsBufferResizable
-        if buffer_view.is_length_tracking:
-            flags |= ArrayBufferViewFlags.IsLengthTracking
+            if buffer_view.is_length_tracking:
+                flags |= ArrayBufferViewFlags.IsLengthTracking
+                byte_length = 0
+        self.write_uint32(byte_length, tag=None)
 
         self.write_varint(flags)
 
-- 
2.43.0


From 644ad45332d7588e6d4d3aba65deef683009d532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:03 +0000
Subject: [PATCH 16/46] fix: reject shared and transferred buffer ids that are
 not uint32

---
 src/v8serialize/encode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 582dcd3..dcd9c51 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -664,7 +664,7 @@ class WritableTagStream:
             raise ValueError(f"buffer_id cannot be negative: {buffer.buffer_id=}")
         self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kSharedArrayBuffer)
-        self.write_varint(buffer.buffer_id)
+        self.write_uint32(buffer.buffer_id, tag=None)
 
     def _write_js_array_buffer_transfer(
         self, buffer: AnyArrayBufferTransfer, *, identity: object | None = None
@@ -673,7 +673,7 @@ class WritableTagStream:
             raise ValueError(f"transfer_id cannot be negative: {buffer.transfer_id=}")
         self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kArrayBufferTransfer)
-        self.write_varint(buffer.transfer_id)
+        self.write_uint32(buffer.transfer_id, tag=None)
 
     def write_js_array_buffer_view(
         self, buffer_view: AnyArrayBufferView, *, identity: object | None = None
-- 
2.43.0


From 7016cde77704d67fc645e3db0495578d617f2d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:12 +0000
Subject: [PATCH 17/46] fix: sparse arrays fail when removing their last
 elements

---
 src/v8serialize/jstypes/jsarrayproperties.py | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index fccee7a..3918064 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -526,11 +526,7 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
                 # Creating a hole invalidates the sorted keys, but if it's the
                 # last value we can update the sorted keys in place in O(1).
 
-                # TODO: ensure we set an empty sorted_keys when
-                #   appending/inserting from empty list
                 sorted_keys = self._sorted_keys
-                assert sorted_keys is not None if len(items) <= 1 else True
-
                 if sorted_keys is None:
                     return
                 if i == sorted_keys[-1]:
@@ -546,9 +542,6 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             # When filling a hole after the last existing element we can update
             # sorted_keys in place in O(1).
             sorted_keys = self._sorted_keys
-            # TODO: ensure we set an empty sorted_keys when appending/inserting
-            #   from empty list
-            assert sorted_keys is not None if len(items) <= 1 else True
             if sorted_keys is not None and i > (
                 -1 if len(sorted_keys) == 0 else sorted_keys[-1]
             ):
-- 
2.43.0


From 78d3708f198ee2712c74bb420e1630b89169e1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:50 +0000
Subject: [PATCH 18/46] fix: sparse arrays lose holes at their end

---
 src/v8serialize/jstypes/jsarrayproperties.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 3918064..9b162a4 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -403,8 +403,9 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
         if values is not None:
             if length is not None:  # Enforce type signature
                 raise ValueError("length cannot be used with values argument")
-            if supports_sized(values):
-                length = len(values)
+            if not supports_sized(values):
+                values = list(values)
+            length = len(values)
             entries = (
                 (i, v)
                 for i, v in enumerate(cast(Iterable[T], values))
@@ -591,13 +592,14 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             self._sorted_keys = None
 
     def append(self, value: T | JSHoleType) -> None:
-        if value is JSHole:
-            return
         i = self._max_index + 1
         if i >= MAX_ARRAY_LENGTH:
             raise IndexError(
                 f"Cannot extend array beyond max length: {MAX_ARRAY_LENGTH}"
             )
+        if value is JSHole:
+            self._max_index = i
+            return
 
         items = self._items
         sorted_keys = self._sorted_keys
-- 
2.43.0


From fe576d27e23a3891d1dd539c8219280d10111566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:28 +0000
Subject: [PATCH 19/46] fix: array properties reject out of range insert and
 element reads inconsistently

---
 src/v8serialize/jstypes/jsarrayproperties.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/src/v8serialize/jstypes/jsarrayproperties.py b/src/v8serialize/jstypes/jsarrayproperties.py
index 9b162a4..c988f8b 100644
--- a/src/v8serialize/jstypes/jsarrayproperties.py
+++ b/src/v8serialize/jstypes/jsarrayproperties.py
@@ -338,8 +338,6 @@ class DenseArrayProperties(AbstractArrayProperties[T]):
         self._elements_used -= 1
 
     def insert(self, i: int, o: T | JSHoleType) -> None:
-        i = self._normalise_index(i)
-
         self._items.insert(i, o)
 
         if o is not JSHole:
@@ -574,7 +572,8 @@ class SparseArrayProperties(AbstractArrayProperties[T]):
             self._sorted_keys = None
 
     def insert(self, i: int, value: T | JSHoleType, /) -> None:
-        i = self._normalise_index(i)
+        # Like list.insert(), out of range indexes are clamped
+        i = min(i, len(self)) if i >= 0 else max(0, len(self) + i)
         if len(self) >= MAX_ARRAY_LENGTH:
             raise IndexError("Cannot insert, array is already at max allowed length")
 
@@ -655,7 +654,7 @@ class ArrayPropertiesElementsView(ElementsView[T], Mapping[int, T]):
         self.order = order
 
     def __getitem__(self, key: int, /) -> T:
-        if not (0 <= key <= len(self._array_properties)):
+        if not (0 <= key < len(self._array_properties)):
             raise KeyError(key)
         value = self._array_properties[key]
         if value is not JSHole:
-- 
2.43.0


From c261ff6f669009c321ae3fa8557c292f5e3ab920 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 20/46] fix: keep the region of views over shared and
 transferred buffers

---
 src/v8serialize/jstypes/jsbuffers.py | 21 ++++++++++++++++++---
 1 file changed, 18 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 16c2fcc..4dc0b66 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -514,15 +514,22 @@ the itemsize when the view does not have an explicit byte_length"""
         """The view's position in the backing_buffer.
 
         The offset is 0 when the buffer is out-of-range, or the number of bytes
-        given by `item_offset * view_format.itemsize`.
+        given by `item_offset * view_format.itemsize`. The size of buffers whose
+        data is not accessible is not known, so they're always in range.
         """
-        if not self.is_in_range:
+        if self.__is_backing_buffer_accessible and not self.is_in_range:
             return 0
         return self.item_offset * self.data_format.byte_length
 
     @property
     def byte_length(self) -> int:
-        """The number of bytes accessible through this view."""
+        """The number of bytes accessible through this view.
+
+        This is the view's nominal length if the data of the `.backing_buffer`
+        is not accessible (e.g. `JSSharedArrayBuffer`, `JSArrayBufferTransfer`).
+        """
+        if not self.__is_backing_buffer_accessible:
+            return (self.item_length or 0) * self.data_format.byte_length
         return self.__get_buffer_as_memoryview()[1].nbytes
 
     @property
@@ -543,6 +550,14 @@ the itemsize when the view does not have an explicit byte_length"""
         """Whether this view's entire range exists in the `.backing_buffer`."""
         return self.__get_buffer_as_memoryview()[0]
 
+    @property
+    def __is_backing_buffer_accessible(self) -> bool:
+        try:
+            get_buffer(self.backing_buffer).release()
+        except NotImplementedError:
+            return False
+        return True
+
     @abstractmethod
     def get_buffer(
         self, *, readonly: Literal[True] | None = None
-- 
2.43.0


From f0de30a0c14e199bfd14fe3eaa897a80b8387dc0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:07 +0000
Subject: [PATCH 21/46] fix: array buffer view repr shows the wrong readonly
 value

---
 src/v8serialize/jstypes/jsbuffers.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 4dc0b66..300e6f3 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -651,7 +651,7 @@ the itemsize when the view does not have an explicit byte_length"""
             f"{self.backing_buffer!r}",
             None if self.item_offset == 0 else f"item_offset={self.item_offset!r}",
             None if self.item_length is None else f"item_length={self.item_length!r}",
-            None if self.readonly is None else f"readonly={self.item_length!r}",
+            None if self.readonly is None else f"readonly={self.readonly!r}",
         ]
         args = ", ".join(a for a in arg_pieces if a)
         return f"{type(self).__name__}({args})"
-- 
2.43.0


From 17ccdc30d4e153ea63380cfe0dcf167521e342dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:34 +0000
Subject: [PATCH 22/46] fix: Encoder.first_v8_version fails when no features
 are enabled

---
 src/v8serialize/encode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index dcd9c51..ad64b9c 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -1235,7 +1235,10 @@ class Encoder:
     @property
     def first_v8_version(self) -> Version | UnreleasedVersion:
         """The earliest version of V8 that can read data produced by this Encoder."""
-        return max(f.first_v8_version for f in self.features)
+        return max(
+            (f.first_v8_version for f in self.features),
+            default=SerializationFeature.MaxCompatibility.first_v8_version,
+        )
 
     def encode(self, value: object) -> bytearray:
         """
-- 
2.43.0


From 442a9122a1ddd284995d00928521e68e09dab096 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:14 +0000
Subject: [PATCH 23/46] fix: same_value_zero fails with ints too large for a
 float

---
 src/v8serialize/jstypes/_equality.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/_equality.py b/src/v8serialize/jstypes/_equality.py
index c1e188b..4f513f2 100644
--- a/src/v8serialize/jstypes/_equality.py
+++ b/src/v8serialize/jstypes/_equality.py
@@ -81,7 +81,7 @@ Equality_comparisons_and_sameness#same-value-zero_equality
         # bools are equal to 0 and 1 by default
         return (bool, value)  # type: ignore[return-value]
     elif isinstance(value, (int, float)):
-        if isnan(value):
+        if isinstance(value, float) and isnan(value):
             # Represent nan as a value equal to itself.
             return _nankey  # type: ignore[return-value]
         return value  # type: ignore[return-value]
-- 
2.43.0


From f0a69f3d7dd57345a7fb0299bdd09c05501c9e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:30 +0000
Subject: [PATCH 24/46] fix: accept property keys that are very long digit
 strings

---
 src/v8serialize/jstypes/_normalise_property_key.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/v8serialize/jstypes/_normalise_property_key.py b/src/v8serialize/jstypes/_normalise_property_key.py
index f471247..e6174a0 100644
--- a/src/v8serialize/jstypes/_normalise_property_key.py
+++ b/src/v8serialize/jstypes/_normalise_property_key.py
@@ -53,6 +53,10 @@ def normalise_property_key(key: str | int | float) -> str | int:
     This reflects the behaviour defined in: https://tc39.es/ecma262/#integer-index
     """
     if isinstance(key, str):
+        # Strings with more digits than the largest array index are never an
+        # index. They can also be too long for int() to convert.
+        if len(key) > len(str(MAX_ARRAY_LENGTH)):
+            return key
         int_value = canonical_numeric_index_string(key)
         if int_value is None:
             return key
-- 
2.43.0


From 59eb0e67ba3e557822d76ab839f457d54317df75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 25/46] fix: equality of cyclic objects ignores which objects
 correspond

---
 src/v8serialize/_recursive_eq.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/src/v8serialize/_recursive_eq.py b/src/v8serialize/_recursive_eq.py
index 82bbcaf..48637f3 100644
--- a/src/v8serialize/_recursive_eq.py
+++ b/src/v8serialize/_recursive_eq.py
@@ -4,7 +4,8 @@ from _thread import get_ident
 from functools import wraps
 from typing import Final, TypeVar
 
-_RUNNING_EQ_KEYS: Final[set[tuple[int, int]]] = set()
+# Maps each object with a running __eq__ to the id of the object it's compared to
+_RUNNING_EQ_KEYS: Final[dict[tuple[int, int], int]] = {}
 
 _T = TypeVar("_T")
 
@@ -49,23 +50,27 @@ def recursive_eq(cls: type[_T]) -> type[_T]:
         # If either side already has __eq__ running in the call stack, we must
         # stop recursing, otherwise we'll infinitely loop.
         if self_running or other_running:
-            # If both sides were already seen, we might be equal (caller decides)
-            # If only one side was running, we can't be equal, as there's a
+            # If both sides were already seen as a pair, we might be equal
+            # (caller decides). If only one side was running, or they're being
+            # compared to other objects, we can't be equal, as there's a
             # different structure referencing this point.
-            return self_running and other_running
+            return (
+                _RUNNING_EQ_KEYS.get(self_key) == other_key[0]
+                and _RUNNING_EQ_KEYS.get(other_key) == self_key[0]
+            )
 
         # Register these objects as running so that we won't descend into them
         # if they are referenced again.
-        _RUNNING_EQ_KEYS.add(self_key)
-        _RUNNING_EQ_KEYS.add(other_key)
+        _RUNNING_EQ_KEYS[self_key] = id(other)
+        _RUNNING_EQ_KEYS[other_key] = id(self)
 
         # Allow the type to do its own equality check as normal, descending into
         # children if required.
         try:
             eq = wrapped_eq(self, other)
         finally:
-            _RUNNING_EQ_KEYS.remove(self_key)
-            _RUNNING_EQ_KEYS.remove(other_key)
+            del _RUNNING_EQ_KEYS[self_key]
+            del _RUNNING_EQ_KEYS[other_key]
         return eq
 
     cls.__eq__ = decorator  # type: ignore[method-assign]
-- 
2.43.0


From dc51281a70b041e4b97b6fcb7ea4412344647e29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:48 +0000
Subject: [PATCH 26/46] fix: reject all unknown regexp flags when decoding

---
 src/v8serialize/decode.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 6aba394..46f4793 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -410,10 +410,7 @@ class ReadableTagStream:
         source = ctx.decode_object(tag=self.read_tag(tag=JS_STRING_TAGS))
         assert isinstance(source, str)
         raw_flags = self.read_varint()
-        known_flags = 0
-        for flag in JSRegExpFlag:
-            known_flags |= flag
-        if raw_flags & ~known_flags:
+        if raw_flags != JSRegExpFlag(raw_flags).canonical:
             self.throw(f"RegExp has unknown flags: {hex(raw_flags)}")
         try:
             result = JSRegExp(source, JSRegExpFlag(raw_flags))
-- 
2.43.0


From f2d20619614ff867ad1e8b12fde09e4143beca48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:11 +0000
Subject: [PATCH 27/46] fix: reject negative serialized ids in the object log

---
 src/v8serialize/_references.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8serialize/_references.py b/src/v8serialize/_references.py
index 63caeb2..7770ae3 100644
--- a/src/v8serialize/_references.py
+++ b/src/v8serialize/_references.py
@@ -86,6 +86,8 @@ class SerializedObjectLog:
 
     def get_object(self, serialized_id: SerializedId) -> object:
         try:
+            if serialized_id < 0:
+                raise IndexError(serialized_id)
             return self._object_by_serialized_id[serialized_id]
         except IndexError:
             raise SerializedIdOutOfRangeV8SerializeError(
-- 
2.43.0


From 9151d011f46c2ef5a355aef2ff27fab6457379a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:18:54 +0000
Subject: [PATCH 28/46] fix: resolve acyclic object references by serialized id

---
 src/v8serialize/_references.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/_references.py b/src/v8serialize/_references.py
index 7770ae3..4033f99 100644
--- a/src/v8serialize/_references.py
+++ b/src/v8serialize/_references.py
@@ -88,7 +88,10 @@ class SerializedObjectLog:
         try:
             if serialized_id < 0:
                 raise IndexError(serialized_id)
-            return self._object_by_serialized_id[serialized_id]
+            value = self._object_by_serialized_id[serialized_id]
+            if isinstance(value, ForwardReference):
+                return value.get_value()  # throw if not yet set
+            return value
         except IndexError:
             raise SerializedIdOutOfRangeV8SerializeError(
                 "Serialized ID has not been recorded in the log",
-- 
2.43.0


From f34f3f2bd68efb69b79de3e6f65df9b3fa5dd04c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:42 +0000
Subject: [PATCH 29/46] fix: leave a DataView's bytes alone when a value is
 refused

---
 src/v8serialize/jstypes/jsbuffers.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 300e6f3..c4cffae 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -952,6 +952,8 @@ data in bulk.
                 byte_length=struct.calcsize(struct_format),
                 buffer_byte_length=len(self.buffer),
             )
+        # pack_into() clears the destination before it rejects a value
+        struct.pack(struct_format, *values)
         struct.pack_into(struct_format, buffer, byte_offset, *values)
 
     def get_bigint64(self, byte_offset: int, little_endian: bool = False) -> int:
-- 
2.43.0


From e741af9784e31f5015eb24ac1a879bc234b85202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:45 +0000
Subject: [PATCH 30/46] fix: encode int subclasses without iterating over
 integer ranges

---
 src/v8serialize/encode.py                    | 6 ++++--
 src/v8serialize/jstypes/jsprimitiveobject.py | 2 +-
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index ad64b9c..c4fc796 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -347,7 +347,7 @@ class WritableTagStream:
         *,
         tag: Literal[SerializationTag.kInt32] | None = SerializationTag.kInt32,
     ) -> None:
-        if value not in INT32_RANGE:
+        if not INT32_RANGE.start <= value < INT32_RANGE.stop:
             raise ValueError(
                 f"Python int is too large to represent as Int32: value must be "
                 f"in {INT32_RANGE}"
@@ -361,7 +361,7 @@ class WritableTagStream:
         *,
         tag: Literal[SerializationTag.kUint32] | None = SerializationTag.kUint32,
     ) -> None:
-        if value not in UINT32_RANGE:
+        if not UINT32_RANGE.start <= value < UINT32_RANGE.stop:
             raise ValueError(
                 f"Python int is too large to represent as Uint32: value must be "
                 f"in {UINT32_RANGE}"
@@ -928,6 +928,8 @@ class TagWriter(EncodeStepObject):
     def serialize_int(
         self, value: int, /, ctx: EncodeContext, next: EncodeNextFn
     ) -> None:
+        # Testing if a range contains a subclass of int iterates over the range
+        value = int(value)
         if value in UINT32_RANGE:
             ctx.stream.write_uint32(value)
         elif value in INT32_RANGE:
diff --git a/src/v8serialize/jstypes/jsprimitiveobject.py b/src/v8serialize/jstypes/jsprimitiveobject.py
index 17ef3d2..ae006d0 100644
--- a/src/v8serialize/jstypes/jsprimitiveobject.py
+++ b/src/v8serialize/jstypes/jsprimitiveobject.py
@@ -70,7 +70,7 @@ class JSPrimitiveObject(Generic[T], metaclass=ABCMeta):
         elif isinstance(value, float):
             expected_tag = SerializationTag.kNumberObject
         elif isinstance(value, int):
-            if value in FLOAT64_SAFE_INT_RANGE:
+            if int(value) in FLOAT64_SAFE_INT_RANGE:
                 expected_tag = SerializationTag.kNumberObject
                 expected_tag2 = SerializationTag.kBigIntObject
             else:
-- 
2.43.0


From 67f491749d6fe8aa093fd73eca03e3c795a02a7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:06 +0000
Subject: [PATCH 31/46] fix: use the message of SyntaxErrors, not their
 location

---
 src/v8serialize/jstypes/jserror.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jserror.py b/src/v8serialize/jstypes/jserror.py
index d995b29..66cc05e 100644
--- a/src/v8serialize/jstypes/jserror.py
+++ b/src/v8serialize/jstypes/jserror.py
@@ -123,7 +123,10 @@ def _get_message(tbe: TracebackException) -> str | None:
     # error name via the name property, because it has a fixed set of values.
     # The message property is not displayed by V8 runtimes I've tried, they just
     # show the stack string.
-    return next((ln.rstrip() for ln in tbe.format_exception_only()), None)
+    #
+    # SyntaxErrors have indented lines showing the invalid source before this.
+    lines = (ln.rstrip() for ln in tbe.format_exception_only())
+    return next((ln for ln in lines if not ln.startswith(" ")), None)
 
 
 @recursive_eq
-- 
2.43.0


From 19f8d83381c814fa99110fa418e8f2c6f03542cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:29:40 +0000
Subject: [PATCH 32/46] fix: convert dates exactly in timezones with sub-second
 offsets

---
 src/v8serialize/decode.py | 20 +++++++++++++-------
 src/v8serialize/encode.py | 16 +++++++++++-----
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index 46f4793..a53715c 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -8,7 +8,7 @@ import struct
 import sys
 from collections.abc import Iterable, Mapping, MutableMapping, MutableSet, Sequence
 from dataclasses import dataclass, field
-from datetime import datetime, tzinfo
+from datetime import datetime, timedelta, timezone, tzinfo
 from functools import partial
 from types import MappingProxyType
 from typing import (
@@ -114,6 +114,9 @@ else:
     TagT_con = TypeVar("TagT_con", bound=AnySerializationTag, contravariant=True)
 
 
+_EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
+
+
 def _decode_zigzag(n: int) -> int:
     """Convert ZigZag encoded unsigned int to signed.
 
@@ -524,12 +527,15 @@ class ReadableTagStream:
             self.read_tag(SerializationTag.kDate)
         epoch_ms = self.read_double(tag=False)
         try:
-            # Convert whole seconds and milliseconds separately, as a float of
-            # seconds is not precise enough for dates in the distant future.
-            seconds, ms = divmod(epoch_ms, 1000)
-            result = datetime.fromtimestamp(seconds, tz=tz).replace(
-                microsecond=min(round(ms * 1000), 999_999)
-            )
+            if tz is None:
+                # Convert whole seconds and milliseconds separately, as a float of
+                # seconds is not precise enough for dates in the distant future.
+                seconds, ms = divmod(epoch_ms, 1000)
+                result = datetime.fromtimestamp(seconds).replace(
+                    microsecond=min(round(ms * 1000), 999_999)
+                )
+            else:
+                result = (_EPOCH + timedelta(milliseconds=epoch_ms)).astimezone(tz)
         except (ValueError, OverflowError, OSError) as e:
             self.throw(
                 f"Date is not representable as a datetime: {epoch_ms=}", cause=e
diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index c4fc796..9282661 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -9,7 +9,7 @@ from collections import abc
 from collections.abc import Collection, Iterable, Mapping, Sequence
 from contextlib import AbstractContextManager
 from dataclasses import dataclass, field
-from datetime import datetime
+from datetime import datetime, timedelta, timezone
 from functools import lru_cache, partial
 from types import TracebackType
 from typing import (
@@ -84,6 +84,9 @@ T = TypeVar("T")
 T_con = TypeVar("T_con", contravariant=True)
 
 
+_EPOCH = datetime(1970, 1, 1, tzinfo=timezone.utc)
+
+
 @dataclass(init=False)
 class EncodeV8SerializeError(V8SerializeError, ValueError):
     pass
@@ -438,10 +441,13 @@ class WritableTagStream:
         self.write_varint(SerializationErrorTag.End)
 
     def write_js_date(self, value: datetime, *, identity: object | None = None) -> None:
-        # Convert whole seconds and microseconds separately, as a float of
-        # seconds is not precise enough to hold every whole millisecond.
-        seconds = value.replace(microsecond=0).timestamp()
-        epoch_ms = seconds * 1000 + value.microsecond / 1000
+        if value.utcoffset() is None:
+            # Convert whole seconds and microseconds separately, as a float of
+            # seconds is not precise enough to hold every whole millisecond.
+            seconds = value.replace(microsecond=0).timestamp()
+            epoch_ms = seconds * 1000 + value.microsecond / 1000
+        else:
+            epoch_ms = (value - _EPOCH) / timedelta(milliseconds=1)
         self.objects.record_reference(value if identity is None else identity)
         self.write_tag(SerializationTag.kDate)
         self.write_double(epoch_ms, tag=None)
-- 
2.43.0


From 49ec6964773115ccbeadc4803dc83867785a84d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:49:27 +0000
Subject: [PATCH 33/46] fix: keep views of shared and transferred buffers next
 to Node.js host objects

---
 src/v8serialize/extensions.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/v8serialize/extensions.py b/src/v8serialize/extensions.py
index ded420b..b434de0 100644
--- a/src/v8serialize/extensions.py
+++ b/src/v8serialize/extensions.py
@@ -14,7 +14,9 @@ from v8serialize.constants import ArrayBufferViewTag
 from v8serialize.jstypes.jsbuffers import (
     ArrayBufferViewStructFormat,
     JSArrayBuffer,
+    JSArrayBufferTransfer,
     JSDataView,
+    JSSharedArrayBuffer,
     JSTypedArray,
 )
 
@@ -140,8 +142,13 @@ def serialize_js_array_buffer_views_as_nodejs_host_object(
     `NodeJsArrayBufferViewHostObjectHandler` must be used to read Node.JS's
     custom encoding).
     """
-    if isinstance(value, (JSDataView, JSTypedArray)) and NodeBufferFormat.supports(
-        value.view_tag
+    if (
+        isinstance(value, (JSDataView, JSTypedArray))
+        and NodeBufferFormat.supports(value.view_tag)
+        # The contents of shared and transferred buffers are not available
+        and not isinstance(
+            value.backing_buffer, (JSSharedArrayBuffer, JSArrayBufferTransfer)
+        )
     ):
         ctx.stream.write_host_object(
             value, serializer=_node_js_array_buffer_view_host_object_handler
-- 
2.43.0


From 9c7fe7c36ea41536d296edafbb1586478b9328c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:21 +0000
Subject: [PATCH 34/46] fix: report bytes patterns that are not UTF-8 as not
 representable

JSRegExp.from_python_pattern(throw=False) raised UnicodeDecodeError instead
of returning None, and dumps() raised it instead of a V8SerializeError.
---
 src/v8serialize/jstypes/jsregexp.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsregexp.py b/src/v8serialize/jstypes/jsregexp.py
index d83941f..62e3f85 100644
--- a/src/v8serialize/jstypes/jsregexp.py
+++ b/src/v8serialize/jstypes/jsregexp.py
@@ -69,7 +69,14 @@ JavaScript/Reference/Global_Objects/RegExp
         no equivalent JavaScript flag.
         """
         if isinstance(pattern.pattern, bytes):
-            source = pattern.pattern.decode()
+            try:
+                source = pattern.pattern.decode()
+            except UnicodeDecodeError as e:
+                if throw:
+                    raise JSRegExpV8SerializeError(
+                        f"Python re.Pattern bytes are not valid UTF-8 text: {e}"
+                    ) from e
+                return None
         else:
             source = pattern.pattern
         try:
-- 
2.43.0


From fc841643bbe4db1f3824d763b18164666cbfd834 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:56 +0000
Subject: [PATCH 35/46] fix: report every source Python cannot compile as
 documented

re.compile() also raises ValueError (inline flags that conflict), OverflowError
(repetition counts) and RecursionError (nesting). as_python_pattern(throw=False)
raised those instead of returning None.
---
 src/v8serialize/jstypes/jsregexp.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsregexp.py b/src/v8serialize/jstypes/jsregexp.py
index 62e3f85..086ff19 100644
--- a/src/v8serialize/jstypes/jsregexp.py
+++ b/src/v8serialize/jstypes/jsregexp.py
@@ -108,7 +108,14 @@ JavaScript/Reference/Global_Objects/RegExp
         # so some patterns still don't work.
         try:
             return compile(self.source, self.flags.as_python_flags())
-        except (JSRegExpV8SerializeError, re.error) as e:
+        except (
+            JSRegExpV8SerializeError,
+            re.error,
+            # Incompatible inline flags, excessive repetition counts & nesting
+            ValueError,
+            OverflowError,
+            RecursionError,
+        ) as e:
             if throw:
                 raise JSRegExpV8SerializeError(
                     f"JSRegExp is not a valid Python re.Pattern: {e}"
-- 
2.43.0


From 507a3fa3182d6c78e82a89868e3f2f71a3583287 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:59:58 +0000
Subject: [PATCH 36/46] fix: equality of objects in one cycle depends on its
 length

An object can be on both sides of the comparisons that are running when both
compared objects are part of one cycle. The guard took the second appearance
for a different structure, so objects in a ring of 3 were unequal to each other
although each was equal to the corresponding objects of a copy of the ring.
---
 src/v8serialize/_recursive_eq.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/v8serialize/_recursive_eq.py b/src/v8serialize/_recursive_eq.py
index 48637f3..e079f4b 100644
--- a/src/v8serialize/_recursive_eq.py
+++ b/src/v8serialize/_recursive_eq.py
@@ -4,8 +4,9 @@ from _thread import get_ident
 from functools import wraps
 from typing import Final, TypeVar
 
-# Maps each object with a running __eq__ to the id of the object it's compared to
-_RUNNING_EQ_KEYS: Final[dict[tuple[int, int], int]] = {}
+# Maps each object with a running __eq__ to the id of the object it's compared to.
+# The two sides are separate, as one object can be on both sides of comparisons.
+_RUNNING_EQ_KEYS: Final[dict[tuple[int, str, int], int]] = {}
 
 _T = TypeVar("_T")
 
@@ -42,8 +43,8 @@ def recursive_eq(cls: type[_T]) -> type[_T]:
         # Keys are different across threads so that concurrent eq calls are
         # independent.
         thread_id = get_ident()
-        self_key = id(self), thread_id
-        other_key = id(other), thread_id
+        self_key = id(self), "self", thread_id
+        other_key = id(other), "other", thread_id
         self_running = self_key in _RUNNING_EQ_KEYS
         other_running = other_key in _RUNNING_EQ_KEYS
 
-- 
2.43.0


From dd0358459e6e0e1c05d2c465fc8091ebe8013e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:26:13 +0000
Subject: [PATCH 37/46] fix: do not record objects that are refused as property
 keys

---
 src/v8serialize/encode.py | 30 +++++++++++++++---------------
 1 file changed, 15 insertions(+), 15 deletions(-)

diff --git a/src/v8serialize/encode.py b/src/v8serialize/encode.py
index 9282661..b728e11 100644
--- a/src/v8serialize/encode.py
+++ b/src/v8serialize/encode.py
@@ -375,10 +375,10 @@ class WritableTagStream:
     def write_js_primitive_object(
         self, obj: JSPrimitiveObject, *, identity: object | None = None
     ) -> None:
-        self.objects.record_reference(obj if identity is None else identity)
         tag = obj.tag
         value = obj.value
         self.write_tag(tag)
+        self.objects.record_reference(obj if identity is None else identity)
         if tag is SerializationTag.kStringObject:
             assert isinstance(value, str)
             self.write_string_utf8(value, tag=None)
@@ -401,8 +401,8 @@ class WritableTagStream:
     def write_js_regexp(
         self, regexp: JSRegExp, *, identity: object | None = None
     ) -> None:
-        self.objects.record_reference(regexp if identity is None else identity)
         self.write_tag(SerializationTag.kRegExp)
+        self.objects.record_reference(regexp if identity is None else identity)
         # We can write any of the string formats here, but just UTF-8 seems fine
         self.write_string_utf8(regexp.source)
         self.write_varint(regexp.flags.canonical)
@@ -448,8 +448,8 @@ class WritableTagStream:
             epoch_ms = seconds * 1000 + value.microsecond / 1000
         else:
             epoch_ms = (value - _EPOCH) / timedelta(milliseconds=1)
-        self.objects.record_reference(value if identity is None else identity)
         self.write_tag(SerializationTag.kDate)
+        self.objects.record_reference(value if identity is None else identity)
         self.write_double(epoch_ms, tag=None)
 
     def write_jsmap(
@@ -459,8 +459,8 @@ class WritableTagStream:
         *,
         identity: object | None = None,
     ) -> None:
-        self.objects.record_reference(items if identity is None else identity)
         self.write_tag(SerializationTag.kBeginJSMap)
+        self.objects.record_reference(items if identity is None else identity)
         count = 0
         for key, value in items:
             ctx.encode_object(key)
@@ -476,8 +476,8 @@ class WritableTagStream:
         *,
         identity: object | None = None,
     ) -> None:
-        self.objects.record_reference(values if identity is None else identity)
         self.write_tag(SerializationTag.kBeginJSSet)
+        self.objects.record_reference(values if identity is None else identity)
         count = 0
         for value in values:
             ctx.encode_object(value)
@@ -492,8 +492,8 @@ class WritableTagStream:
         *,
         identity: object | None = None,
     ) -> None:
-        self.objects.record_reference(items if identity is None else identity)
         self.write_tag(SerializationTag.kBeginJSObject)
+        self.objects.record_reference(items if identity is None else identity)
         self._write_js_object_properties(items, ctx)
 
     def _write_js_object_properties(
@@ -547,8 +547,8 @@ class WritableTagStream:
                     "array and properties are provided"
                 )
             identity = array
-        self.objects.record_reference(identity)
         self.write_tag(SerializationTag.kBeginDenseJSArray)
+        self.objects.record_reference(identity)
         array_length = len(array)
         self.write_varint(array_length)
         array_el_count = 0
@@ -580,8 +580,8 @@ class WritableTagStream:
             raise ValueError(
                 f"length must be >= 0 and <= ${MAX_ARRAY_LENGTH_REPR}: {length=}"
             )
-        self.objects.record_reference(items if identity is None else identity)
         self.write_tag(SerializationTag.kBeginSparseJSArray)
+        self.objects.record_reference(items if identity is None else identity)
         self.write_varint(length)
         self._write_js_object_properties(
             items, ctx, end_tag=SerializationTag.kEndSparseJSArray
@@ -641,8 +641,8 @@ class WritableTagStream:
             not buffer.resizable
             or SerializationFeature.ResizableArrayBuffers not in self.features
         )
-        self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kArrayBuffer)
+        self.objects.record_reference(buffer if identity is None else identity)
         with memoryview(buffer.data) as buffer_data:
             self.write_uint32(len(buffer_data), tag=None)
             self.data.extend(buffer_data)
@@ -657,8 +657,8 @@ class WritableTagStream:
                     f"max_byte_length must be >= len(data): "
                     f"{buffer.max_byte_length=}, {len(buffer_data)=}"
                 )
-            self.objects.record_reference(buffer if identity is None else identity)
             self.write_tag(SerializationTag.kResizableArrayBuffer)
+            self.objects.record_reference(buffer if identity is None else identity)
             self.write_uint32(len(buffer_data), tag=None)
             self.write_uint32(buffer.max_byte_length, tag=None)
             self.data.extend(buffer_data)
@@ -668,8 +668,8 @@ class WritableTagStream:
     ) -> None:
         if buffer.buffer_id < 0:
             raise ValueError(f"buffer_id cannot be negative: {buffer.buffer_id=}")
-        self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kSharedArrayBuffer)
+        self.objects.record_reference(buffer if identity is None else identity)
         self.write_uint32(buffer.buffer_id, tag=None)
 
     def _write_js_array_buffer_transfer(
@@ -677,8 +677,8 @@ class WritableTagStream:
     ) -> None:
         if buffer.transfer_id < 0:
             raise ValueError(f"transfer_id cannot be negative: {buffer.transfer_id=}")
-        self.objects.record_reference(buffer if identity is None else identity)
         self.write_tag(SerializationTag.kArrayBufferTransfer)
+        self.objects.record_reference(buffer if identity is None else identity)
         self.write_uint32(buffer.transfer_id, tag=None)
 
     def write_js_array_buffer_view(
@@ -693,8 +693,8 @@ class WritableTagStream:
                 "SerializationFeature is not enabled.",
                 feature_required=SerializationFeature.Float16Array,
             )
-        self.objects.record_reference(buffer_view if identity is None else identity)
         self.write_tag(SerializationTag.kArrayBufferView)
+        self.objects.record_reference(buffer_view if identity is None else identity)
         self.write_varint(buffer_view.view_tag.value)
         self.write_uint32(buffer_view.byte_offset, tag=None)
 
@@ -721,8 +721,8 @@ class WritableTagStream:
     def write_host_object(
         self, value: T, *, serializer: HostObjectSerializer[T]
     ) -> None:
-        self.objects.record_reference(value)
         self.write_tag(SerializationTag.kHostObject)
+        self.objects.record_reference(value)
         if isinstance(serializer, HostObjectSerializerObj):
             serializer.serialize_host_object(value=value, stream=self)
         else:
@@ -731,8 +731,8 @@ class WritableTagStream:
     def write_v8_shared_object_reference(
         self, value: V8SharedObjectReference, *, identity: object | None = None
     ) -> None:
-        self.objects.record_reference(value if identity is None else identity)
         self.write_tag(SerializationTag.kSharedObject)
+        self.objects.record_reference(value if identity is None else identity)
         self.write_uint32(value.shared_value_id, tag=None)
 
 
-- 
2.43.0


From 62bf73121b4f2fc3ab1a797d9f7cddb9d611f45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:58 +0000
Subject: [PATCH 38/46] fix: show the content of subclasses of JS types in
 their repr

---
 src/v8serialize/jstypes/_repr.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/v8serialize/jstypes/_repr.py b/src/v8serialize/jstypes/_repr.py
index 2186e28..83ad01d 100644
--- a/src/v8serialize/jstypes/_repr.py
+++ b/src/v8serialize/jstypes/_repr.py
@@ -124,6 +124,18 @@ class JSRepr(RecursiveReprMixin, Repr):
             def _join(self, pieces: Iterable[str], level: int) -> str:
                 return ", ".join(pieces)
 
+    def repr_instance(self, x: Any, level: int) -> str:
+        # Repr finds methods by exact type name. Subclasses that inherit the
+        # __repr__ of a JS type are represented as the type they inherit it from
+        # (their __repr__ is just another call to js_repr() with x).
+        for cls in type(x).__mro__[1:]:
+            if cls.__module__.startswith(f"{__package__}."):
+                method = getattr(self, f"repr_{cls.__name__}", None)
+                if method and type(x).__repr__ is cls.__repr__:
+                    repr_: str = method(x, level)
+                    return repr_
+        return super().repr_instance(x, level)
+
     # We need to maintain insertion order in the repr because that's a defined
     # behaviour of JavaScript objects. The default repr behaviour is to sort
     # dict keys, so we can't reuse dict's repr for args to JSObject/JSArray.
-- 
2.43.0


From 0cca1119977ed7ea958fca361b3f9992b87f1a35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:25:28 +0000
Subject: [PATCH 39/46] fix: repr of values containing non-contiguous
 memoryviews

---
 src/v8serialize/jstypes/_repr.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/_repr.py b/src/v8serialize/jstypes/_repr.py
index 83ad01d..ba82d91 100644
--- a/src/v8serialize/jstypes/_repr.py
+++ b/src/v8serialize/jstypes/_repr.py
@@ -367,7 +367,9 @@ class JSRepr(RecursiveReprMixin, Repr):
         try:
             byte_length = obj.nbytes
 
-            content_mv = obj.cast("B")[: self.maxstring]
+            # Only contiguous memoryviews can be cast
+            bytes_mv = obj if obj.c_contiguous else memoryview(obj.tobytes())
+            content_mv = bytes_mv.cast("B")[: self.maxstring]
             truncated = content_mv.nbytes < byte_length
             content_repr = (
                 self.repr_bytes(bytes(content_mv), truncated=truncated)
-- 
2.43.0


From 962212333a7c10710bd6a7f32cb58612c7505263 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:26:08 +0000
Subject: [PATCH 40/46] fix: keep all the data of JSArrayBuffers of non-byte
 buffers

---
 src/v8serialize/jstypes/jsbuffers.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index c4cffae..b9c06c9 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -162,7 +162,11 @@ Reference/Global_Objects/ArrayBuffer
             data = b"\x00" * byte_length if readonly else bytearray(byte_length)
 
         assert isinstance(data, Sized)
-        max_byte_length = len(data) if max_byte_length is None else max_byte_length
+        # len() is the number of items, which need not be bytes
+        with memoryview(data) as data_view:
+            data_byte_length = data_view.nbytes
+        if max_byte_length is None:
+            max_byte_length = data_byte_length
 
         if resizable:
             if not isinstance(data, bytearray):
@@ -177,10 +181,10 @@ Reference/Global_Objects/ArrayBuffer
                 isinstance(data, memoryview) and data.readonly
             )
 
-        if len(data) > max_byte_length:
+        if data_byte_length > max_byte_length:
             raise ByteLengthJSArrayBufferError(
                 "max_byte_length cannot be less than initial byte_length",
-                byte_length=len(data),
+                byte_length=data_byte_length,
                 max_byte_length=max_byte_length,
             )
 
-- 
2.43.0


From e023a91084d3eb7a0f4c9bb5633101e15c918c3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:46 +0000
Subject: [PATCH 41/46] fix: load Sets into built-in sets

---
 src/v8serialize/decode.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/v8serialize/decode.py b/src/v8serialize/decode.py
index a53715c..d7057d5 100644
--- a/src/v8serialize/decode.py
+++ b/src/v8serialize/decode.py
@@ -1290,9 +1290,8 @@ class TagReader(DecodeStepObject):
     ) -> AbstractSet[object]:
         assert tag == SerializationTag.kBeginJSSet
         set = self.jsset_type()
-        # MutableSet's types expect AbstractSet for RHS of |= but implementations
-        # accept any iterable in practice.
-        set |= ctx.stream.read_jsset(ctx, identity=set)  # type: ignore[arg-type]
+        for element in ctx.stream.read_jsset(ctx, identity=set):
+            set.add(element)
         return set
 
     def deserialize_js_object(
-- 
2.43.0


From 1e02f93d9114a1f89986942db56d9a03c4e42332 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:41 +0000
Subject: [PATCH 42/46] fix: views of inaccessible buffers are equal only when
 they view the same region

---
 src/v8serialize/jstypes/jsbuffers.py | 36 +++++++++++++++-------------
 1 file changed, 20 insertions(+), 16 deletions(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index b9c06c9..30a82d7 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -630,25 +630,29 @@ the itemsize when the view does not have an explicit byte_length"""
             return True
         if isinstance(value, JSArrayBufferView):
             value = cast("JSArrayBufferView[AnyArrayBufferData, AnyBufferT]", value)
-            try:
-                with (
-                    self.get_buffer(readonly=True) as self_data,
-                    value.get_buffer(readonly=True) as value_data,
-                ):
-                    return self_data == value_data
-            except NotImplementedError:
-                pass
+            if not (
+                self.__is_backing_buffer_accessible
+                and value.__is_backing_buffer_accessible
+            ):
+                # The elements aren't known, so compare what they're a view of
+                return self.__inaccessible_key == value.__inaccessible_key
+            with (
+                self.get_buffer(readonly=True) as self_data,
+                value.get_buffer(readonly=True) as value_data,
+            ):
+                return self_data == value_data
         return NotImplemented
 
+    @property
+    def __inaccessible_key(self) -> tuple[object, ...]:
+        return self.view_tag, self.backing_buffer, self.byte_offset, self.byte_length
+
     def __hash__(self) -> int:
-        try:
-            with self.get_buffer_as_memoryview(readonly=True) as data:
-                # data may not be hashable, depending on backing buffer
-                return hash(data)
-        except NotImplementedError as e:
-            raise TypeError(
-                f"cannot hash {type(self).__name__} with inaccessible buffer"
-            ) from e
+        if not self.__is_backing_buffer_accessible:
+            return hash(self.__inaccessible_key)
+        with self.get_buffer_as_memoryview(readonly=True) as data:
+            # data may not be hashable, depending on backing buffer
+            return hash(data)
 
     def __repr__(self) -> str:
         arg_pieces = [
-- 
2.43.0


From 41ca85ae938598faf83a07663e5db46ac2f4bfbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:20:45 +0000
Subject: [PATCH 43/46] fix: equal views of different types have the same hash

---
 src/v8serialize/jstypes/jsbuffers.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 30a82d7..6296f91 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -652,7 +652,13 @@ the itemsize when the view does not have an explicit byte_length"""
             return hash(self.__inaccessible_key)
         with self.get_buffer_as_memoryview(readonly=True) as data:
             # data may not be hashable, depending on backing buffer
-            return hash(data)
+            hash(data)
+            # Views of different types are equal if their items are equal, so the
+            # hash is of the items. (The items of a DataView are bytes.)
+            bytes_ = self.data_format.data_type is DataType.Bytes
+            items = struct.iter_unpack("B" if bytes_ else self.data_format.format, data)
+            # NaN is not equal to itself, and the hash of each NaN is different
+            return hash(tuple(v if v == v else None for (v,) in items))
 
     def __repr__(self) -> str:
         arg_pieces = [
-- 
2.43.0


From 5bf7000ec6b80e2a6252993595364936e6acae66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:09:55 +0000
Subject: [PATCH 44/46] fix: JSSets of the same NaN are equal, like lists of
 their members

---
 src/v8serialize/jstypes/jsset.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/v8serialize/jstypes/jsset.py b/src/v8serialize/jstypes/jsset.py
index 611e3ae..d2efe9d 100644
--- a/src/v8serialize/jstypes/jsset.py
+++ b/src/v8serialize/jstypes/jsset.py
@@ -146,8 +146,9 @@ Equality_comparisons_and_sameness#same-value-zero_equality
             if len(self) != len(other):
                 return False
             # Two JSSets are equal if they contain equal members in the same order
+            # (as in lists, an identical member is equal, e.g. NaN)
             return all(
-                x == y
+                x is y or x == y
                 for x, y in zip(self.__members.values(), other.__members.values())
             )
         if isinstance(other, AbstractSet):
-- 
2.43.0


From ba8bf6318ed13ec35d346d9cef4ecb1c3260e38c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:09:17 +0000
Subject: [PATCH 45/46] fix: JSMap keyword items named self and init

---
 src/v8serialize/jstypes/jsmap.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/v8serialize/jstypes/jsmap.py b/src/v8serialize/jstypes/jsmap.py
index 8348460..aeb4754 100644
--- a/src/v8serialize/jstypes/jsmap.py
+++ b/src/v8serialize/jstypes/jsmap.py
@@ -178,6 +178,7 @@ Equality_comparisons_and_sameness#same-value-zero_equality
     def __init__(  # type: ignore[misc]  # mypy doesn't like all the overloads
         self,
         init: SupportsKeysAndGetItem[KT, VT] | Iterable[tuple[KT, VT]] | None = None,
+        /,
         **kwargs: VT,
     ) -> None:
         self.__dict = {}
-- 
2.43.0


From dedf0fa0fb815ff29ca3eb42d7b0ad54a62d3802 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:13:41 +0000
Subject: [PATCH 46/46] fix: BackportJSFloat16Array changed elements that were
 not written, rounded twice

---
 src/v8serialize/jstypes/jsbuffers.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/src/v8serialize/jstypes/jsbuffers.py b/src/v8serialize/jstypes/jsbuffers.py
index 6296f91..408f2e3 100644
--- a/src/v8serialize/jstypes/jsbuffers.py
+++ b/src/v8serialize/jstypes/jsbuffers.py
@@ -840,8 +840,8 @@ class BackportJSFloat16Array(JSFloat16Array):
     """An alternate implementation of `JSFloat16Array` that supports Python < 3.12.
 
     Python versions before 3.12 don't support 16-bit floats as a memoryview format.
-    This implementation copies 16-bit floats to/from a 32-bit float array when
-    get_buffer() accesses the array.
+    This implementation copies 16-bit floats to/from a 64-bit float array when
+    get_buffer() accesses the array. (64-bit, so that floats are rounded once.)
     """
 
     @contextmanager
@@ -854,13 +854,14 @@ class BackportJSFloat16Array(JSFloat16Array):
             assert buffer.format == "B"
             length, remainder = divmod(len(buffer), 2)
             assert remainder == 0
-            data = bytearray(length * 4)
-            view = memoryview(data).cast("f")
+            data = bytearray(length * 8)
+            view = memoryview(data).cast("d")
             assert len(view) * 2 == len(buffer)
 
             half_float = struct.Struct("e")
             for i, v in enumerate(half_float.iter_unpack(buffer)):
                 view[i] = v[0]
+            initial_data = bytes(data)
 
             yield view.toreadonly() if buffer.readonly else view
 
@@ -873,8 +874,10 @@ class BackportJSFloat16Array(JSFloat16Array):
             if buffer.readonly:
                 return
 
+            # Only write items that changed, to not alter the bits of other NaNs
             for i, fv in enumerate(view):
-                half_float.pack_into(buffer, i * 2, fv)
+                if data[i * 8 : i * 8 + 8] != initial_data[i * 8 : i * 8 + 8]:
+                    half_float.pack_into(buffer, i * 2, fv)
 
 
 # Use BackportJSFloat16Array in place of JSFloat16Array in Python versions that
-- 
2.43.0

