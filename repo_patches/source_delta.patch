From 1313ba29b19f159322211e38280541af8c8621a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:53 +0000
Subject: [PATCH 01/47] fix: keep trailing zeros of whole seconds when
 serializing a duration

PT10S was serialized as PT1S as the zeros left of the decimal point were
stripped together with the fractional part.
---
 src/psrpcore/types/_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 37d6c7a..4b9af19 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -561,7 +561,7 @@ def _serialize_duration(
         minutes_str = f"{minutes}M" if minutes else ""
         seconds_str = f"{seconds:.7f}" if (seconds or (not hours_str and not minutes_str)) else ""
         if seconds_str:
-            seconds_str = seconds_str.rstrip(".0").zfill(1) + "S"
+            seconds_str = seconds_str.rstrip("0").rstrip(".") + "S"
 
         time_str = f"T{hours_str}{minutes_str}{seconds_str}"
 
-- 
2.43.0


From 16edbdb96f74d365a991bebd95cae3a12e117d53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:53 +0000
Subject: [PATCH 02/47] fix: zero pad the year when serializing a datetime

strftime(%Y) is not padded on Linux so DateTime.MinValue and any other year
before 1000 was serialized in a form that cannot be deserialized.
---
 src/psrpcore/types/_serializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 4b9af19..a2b9db4 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -518,7 +518,8 @@ def _serialize_datetime(
         utc_offset = value.strftime("%z")
         timezone = f"{utc_offset[:3]}:{utc_offset[3:]}"
 
-    dt_str = value.strftime(f"%Y-%m-%dT%H:%M:%S{fraction_seconds}{timezone}")
+    # strftime does not zero pad the year on all platforms.
+    dt_str = f"{value.year:04d}" + value.strftime(f"-%m-%dT%H:%M:%S{fraction_seconds}{timezone}")
 
     return dt_str
 
-- 
2.43.0


From 034fe09af7009bb531afddaafa54698cdd81a24a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:28:53 +0000
Subject: [PATCH 03/47] fix: escape every character that cannot be placed in
 CLIXML text

Lone surrogates from U+D900 to U+DBFF and the non-characters U+FFFE/U+FFFF
were written as is producing text that cannot be encoded or parsed.
---
 src/psrpcore/types/_serializer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index a2b9db4..708c4b6 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -70,8 +70,9 @@ log = logging.getLogger(__name__)
 # Finds _x in a case insensitive way which we need to escape first as '_x' is the escape code.
 _STRING_SERIAL_ESCAPE_ESCAPE = re.compile("(?i)_(x)")
 
-# Finds C0, C1, and surrogate pairs in a unicode string for us to encode according to the PSRP rules.
-_STRING_SERIAL_ESCAPE = re.compile("[\u0000-\u001F\u007F-\u009F\uD800-\uD8FF\uDC00-\uDFFF\U00010000-\U0010FFFF]")
+# Finds C0, C1, surrogates, and the non-characters not allowed in XML in a unicode string for us to encode according to
+# the PSRP rules.
+_STRING_SERIAL_ESCAPE = re.compile("[\u0000-\u001F\u007F-\u009F\uD800-\uDFFF\uFFFE\uFFFF\U00010000-\U0010FFFF]")
 
 # To support surrogate UTF-16 pairs we need to use a UTF-16 regex so we can replace the UTF-16 string representation
 # with the actual UTF-16 byte value and then decode that.
-- 
2.43.0


From d271b6657acd647b6625bcc74a274a819400a31e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:35 +0000
Subject: [PATCH 04/47] fix: unescape CLIXML strings by character and not by
 byte

The UTF-16-BE byte regex could match half way through two characters, e.g.
'\u4e00\u5f00\u7800\u3000\u3000\u3000\u3000\u5f12' was seen as an escape
sequence and was mangled.
---
 src/psrpcore/types/_serializer.py | 27 +++++----------------------
 1 file changed, 5 insertions(+), 22 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 708c4b6..7084b67 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -74,9 +74,8 @@ _STRING_SERIAL_ESCAPE_ESCAPE = re.compile("(?i)_(x)")
 # the PSRP rules.
 _STRING_SERIAL_ESCAPE = re.compile("[\u0000-\u001F\u007F-\u009F\uD800-\uDFFF\uFFFE\uFFFF\U00010000-\U0010FFFF]")
 
-# To support surrogate UTF-16 pairs we need to use a UTF-16 regex so we can replace the UTF-16 string representation
-# with the actual UTF-16 byte value and then decode that.
-_STRING_DESERIAL_FIND = re.compile(rb"\x00_\x00x((?:\x00[a-fA-F0-9]){4})\x00_")
+# Finds the escaped UTF-16 code units _x****_ in a CLIXML string.
+_STRING_DESERIAL_FIND = re.compile("_x([a-fA-F0-9]{4})_")
 
 # Python datetime only supports up to microsecond precision but .NET can go to 100 nanoseconds. To support this level
 # of precision we need to extract the fractional seconds part of a datetime ourselves and compute the value.
@@ -465,26 +464,10 @@ def _deserialize_string(
         (str): The Python str value that represents the actual string
             represented by the CLIXML.
     """
+    unescaped = re.sub(_STRING_DESERIAL_FIND, lambda m: chr(int(m.group(1), 16)), value)
 
-    # test '_xD83C_'
-
-    def rplcr(matchobj: typing.Any) -> bytes:
-        # The matched object is the UTF-16 byte representation of the UTF-8 hex string value. We need to decode the
-        # byte str to unicode and then unhexlify that hex string to get the actual bytes of the _x****_ value, e.g.
-        # group(0) == b'\x00_\x00x\x000\x000\x000\x00A\x00_'
-        # group(1) == b'\x000\x000\x000\x00A'
-        # unicode (from utf-16-be) == '000A'
-        # returns b'\x00\x0A'
-        match_hex = matchobj.group(1)
-        hex_string = match_hex.decode("utf-16-be")
-        return binascii.unhexlify(hex_string)
-
-    # Need to ensure we start with a unicode representation of the string so that we can get the actual UTF-16 bytes
-    # value from that string.
-    b_value = value.encode("utf-16-be")
-    b_escaped = re.sub(_STRING_DESERIAL_FIND, rplcr, b_value)
-
-    return b_escaped.decode("utf-16-be", errors="surrogatepass")
+    # Each escaped value is a UTF-16 code unit, going through UTF-16 combines any surrogate pairs into the actual char.
+    return unescaped.encode("utf-16-be", errors="surrogatepass").decode("utf-16-be", errors="surrogatepass")
 
 
 def _serialize_datetime(
-- 
2.43.0


From a53e6feefdc47e7f081040da4b8584d7c3089133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:35 +0000
Subject: [PATCH 05/47] fix: escape the ToString value of an object when
 serializing it

The value is unescaped when deserializing, without escaping it a value with
control characters resulted in invalid XML and _x0041_ was changed to A.
---
 src/psrpcore/types/_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 7084b67..38c587f 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -925,7 +925,7 @@ class _Serializer:
                 to_string = ps_object.to_string
 
             if to_string:
-                ElementTree.SubElement(element, "ToString").text = to_string
+                ElementTree.SubElement(element, "ToString").text = _serialize_string(to_string)
 
             if is_complex and no_props and not isinstance(value, PSObject):
                 # If this was a complex object but no properties were defined we consider this a normal Python
-- 
2.43.0


From a5b0305b377fd8ea746a4334b7ceb6184eb53c7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:35 +0000
Subject: [PATCH 06/47] fix: escape type names in CLIXML

Like any other string in CLIXML the type names need to be escaped to be able
to store characters that are not valid in XML.
---
 src/psrpcore/types/_serializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 38c587f..d51067a 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -860,7 +860,7 @@ class _Serializer:
 
                 tn = ElementTree.SubElement(element, "TN", RefId=str(ref_id))
                 for type_name in type_names:
-                    ElementTree.SubElement(tn, "T").text = type_name
+                    ElementTree.SubElement(tn, "T").text = _serialize_string(type_name)
 
         no_props = True
         for xml_name, prop_type in [("Props", "adapted"), ("MS", "extended")]:
@@ -1026,7 +1026,7 @@ class _Serializer:
         if element_tag != "Obj":
             raise ValueError(f"Unknown element found: {element.tag}")
 
-        type_names = [e.text or "" for e in element.findall("TN/T")]
+        type_names = [_deserialize_string(e.text or "") for e in element.findall("TN/T")]
         if type_names:
             tn_ref = element.find("TN")
             if tn_ref is not None:
-- 
2.43.0


From 12482001e3f15e0da8dacbfb4db666ac2f5c7a9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:35 +0000
Subject: [PATCH 07/47] fix: serialize an int smaller than Int32.MinValue as an
 Int64

---
 src/psrpcore/types/_serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index d51067a..e066565 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -723,7 +723,7 @@ class _Serializer:
             if isinstance(value, PSObject):
                 ps_type = type(value)
             elif isinstance(value, int):
-                ps_type = PSInt64 if value > PSInt.MaxValue else PSInt
+                ps_type = PSInt if PSInt.MinValue <= value <= PSInt.MaxValue else PSInt64
             elif isinstance(value, float):
                 ps_type = PSSingle
             else:
-- 
2.43.0


From 89b6f4c262230befb2409c79599eaeb0e1500abf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:35 +0000
Subject: [PATCH 08/47] fix: do not empty a queue when serializing it

---
 src/psrpcore/types/_serializer.py | 9 ++-------
 1 file changed, 2 insertions(+), 7 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index e066565..a484307 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -894,13 +894,8 @@ class _Serializer:
         elif isinstance(value, (PSQueueBase, queue.Queue)):
             que_element = ElementTree.SubElement(element, self._type_to_element[PSQueue])
 
-            while True:
-                try:
-                    que_entry = self.serialize(value.get(block=False))
-                except queue.Empty:
-                    break
-                else:
-                    que_element.append(que_entry)
+            for que_entry in list(value.queue):
+                que_element.append(self.serialize(que_entry))
 
         elif isinstance(value, (PSDictBase, dict)):
             dct_element = ElementTree.SubElement(element, self._type_to_element[PSDict])
-- 
2.43.0


From 2636446efc7860f1410318eec62875e8f12fd5f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:35 +0000
Subject: [PATCH 09/47] fix: support deserializing CLIXML with no entries

---
 src/psrpcore/types/_serializer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index a484307..82f6af1 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -184,6 +184,8 @@ def deserialize_clixml(
     # breaking our parser. It is easier to just strip it from the root Objs
     # element.
     objs_header_end_idx = clixml.find(">")
+    if clixml[objs_header_end_idx - 1] == "/":
+        objs_header_end_idx -= 1  # Self closing element, there are no entries
     clixml = "<Objs" + clixml[objs_header_end_idx:]
 
     raw_clixml = ElementTree.fromstring(clixml)
-- 
2.43.0


From 110050d03e73b798b5f5ee4c7e2de0e8569daf96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:35 +0000
Subject: [PATCH 10/47] fix: only reference type names that are the same in
 CLIXML

The reference was based on just the first type name, objects with the same
first type but different base types lost their own type names.
---
 src/psrpcore/types/_serializer.py | 13 ++++++-------
 1 file changed, 6 insertions(+), 7 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 82f6af1..ae5558a 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -643,7 +643,7 @@ class _Serializer:
         self._obj_ref: weakref.WeakKeyDictionary = weakref.WeakKeyDictionary()
         self._obj_ref_enum: typing.Dict[int, int] = {}
         self._obj_ref_id = 0
-        self._tn_ref_list: typing.List[str] = []
+        self._tn_ref_list: typing.List[typing.List[str]] = []
 
         # Used for deserialization
         self._obj_ref_map: typing.Dict[str, typing.Any] = {}
@@ -848,17 +848,16 @@ class _Serializer:
 
         # Do not add the type names for extended primitive object unless it's an enum
         if ps_object.type_names and (is_enum or not is_extended_primitive):
-            type_names = ps_object.type_names
-            main_type = type_names[0]
-            is_ref = main_type in self._tn_ref_list
+            type_names = list(ps_object.type_names)
+            is_ref = type_names in self._tn_ref_list
 
             if is_ref:
-                ref_id = self._tn_ref_list.index(main_type)
+                ref_id = self._tn_ref_list.index(type_names)
                 ElementTree.SubElement(element, "TNRef", RefId=str(ref_id))
 
             else:
-                self._tn_ref_list.append(main_type)
-                ref_id = self._tn_ref_list.index(main_type)
+                self._tn_ref_list.append(type_names)
+                ref_id = self._tn_ref_list.index(type_names)
 
                 tn = ElementTree.SubElement(element, "TN", RefId=str(ref_id))
                 for type_name in type_names:
-- 
2.43.0


From 51d4e763d9780badb1f4f3e49f53d652eaa2fca8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:29:35 +0000
Subject: [PATCH 11/47] fix: reference CLIXML objects by identity and not
 equality

Two different objects that are equal, e.g. strings with the same value but
with different extended properties, were serialized as the one object.
---
 src/psrpcore/types/_serializer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index ae5558a..97d1f44 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -640,7 +640,7 @@ class _Serializer:
         self._kwargs = kwargs
 
         # Used for serialization to determine fi an object is already serialized or not.
-        self._obj_ref: weakref.WeakKeyDictionary = weakref.WeakKeyDictionary()
+        self._obj_ref: typing.Dict[int, typing.Tuple[int, weakref.ref]] = {}
         self._obj_ref_enum: typing.Dict[int, int] = {}
         self._obj_ref_id = 0
         self._tn_ref_list: typing.List[typing.List[str]] = []
@@ -1163,8 +1163,13 @@ class _Serializer:
         next_ref_id = self._obj_ref_id
 
         try:
-            ref_id = self._obj_ref.setdefault(value, next_ref_id)
-        except TypeError as e:
+            hash(value)  # Mutable containers like a list are not referenced
+            ref_id, ref = self._obj_ref.get(id(value), (next_ref_id, None))
+            if ref is None or ref() is not value:
+                # Not seen before, or the id was reused by a new object.
+                ref_id = next_ref_id
+                self._obj_ref[id(value)] = (ref_id, weakref.ref(value))
+        except TypeError:
             # Some objects cannot have a weakref, try id() only when dealing with known workable types.
             if isinstance(value, enum.Enum):
                 ref_id = self._obj_ref_enum.setdefault(id(value), next_ref_id)
-- 
2.43.0


From 79734af89568f45cb15be81e5fd8abfd80997132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:05 +0000
Subject: [PATCH 12/47] fix: keep the empty strings of a progress record when
 deserializing it

An empty Activity or StatusDescription failed to deserialize and an empty
CurrentOperation was returned as None.
---
 src/psrpcore/types/_serializer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 97d1f44..62a3e2b 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -432,15 +432,20 @@ def _deserialize_progress_record(
         ("SD", "StatusDescription", str),
     ]:
         element_value = value.find(element_key)
-        if element_value is None or not element_value.text:
+        if element_value is None:
+            continue
+
+        # Empty strings are `<AV />` which means element.text is None.
+        element_text = element_value.text or ""
+        if not element_text and prop_type != str:
             continue
 
         prop_value: typing.Union[int, str, ProgressRecordType]
         if prop_type == int:
-            prop_value = int(element_value.text)
+            prop_value = int(element_text)
 
         else:
-            prop_value = _deserialize_string(element_value.text)
+            prop_value = _deserialize_string(element_text)
 
         if prop_type == ProgressRecordType:
             prop_value = ProgressRecordType[str(prop_value)]
-- 
2.43.0


From 9fa6783b6b1f26e78dd6fbf6f186914054fb8293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:05 +0000
Subject: [PATCH 13/47] fix: do not mix messages of different stream types in a
 payload

The stream type of the payload is used by the transport to select the stream,
the payload was labelled based on just the first message in it.
---
 src/psrpcore/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index 0a453aa..b0549c4 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -260,8 +260,8 @@ class RunspacePool(typing.Generic[T1]):
                 stream_type = message.stream_type
                 pipeline_id = message.pipeline_id
 
-            # We can only combine fragments if they are for the same target.
-            if pipeline_id != message.pipeline_id:
+            # We can only combine fragments if they are for the same target and stream.
+            if pipeline_id != message.pipeline_id or stream_type != message.stream_type:
                 break
 
             if amount is None:
-- 
2.43.0


From c51d8e8375d1cf63a1aeebc59141170c903400b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:05 +0000
Subject: [PATCH 14/47] fix: do not add a fragment without any data to a
 payload

This happened when the remaining size was exactly the fragment header size.
---
 src/psrpcore/_base.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index b0549c4..ab42046 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -253,8 +253,8 @@ class RunspacePool(typing.Generic[T1]):
         # TODO: prioritise prompt_response over default if the last fragment was an end fragment.
 
         for message in list(self._send_buffer):
-            if amount is not None and amount < fragment_size:
-                break
+            if amount is not None and amount <= fragment_size:
+                break  # No space for any message data
 
             if not current_buffer:
                 stream_type = message.stream_type
-- 
2.43.0


From 775ee4a2836e978a0a1a3e456f2f82bfff6cb5bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:05 +0000
Subject: [PATCH 15/47] fix: wait for the remaining data of a partially
 received fragment

next_event() failed with a struct.error when the fragment header was
incomplete and silently used the truncated data for an incomplete body.
---
 src/psrpcore/_base.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index ab42046..7e6508f 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -315,7 +315,11 @@ class RunspacePool(typing.Generic[T1]):
                 data buffer or `None` if not enough data has been received.
         """
         # First unpacks the raw receive buffer into messages.
-        while self._receive_buffer:
+        while len(self._receive_buffer) >= 21:
+            fragment_length = int.from_bytes(self._receive_buffer[17:21], "big")
+            if len(self._receive_buffer) < 21 + fragment_length:
+                break  # Need more data from peer to complete this fragment.
+
             fragment = unpack_fragment(self._receive_buffer)
             log.debug(
                 "Unpacked fragment - OID: %s, FID: %s, Start: %s, End: %s, Length: %s",
-- 
2.43.0


From f8043f419673c502cfb439dc14ff08290c821683 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:05 +0000
Subject: [PATCH 16/47] fix: do not fail on a pipeline state for a closed
 pipeline

A pipeline can be closed while it is stopping, the state that is then received
from the server failed with a KeyError and the event was lost.
---
 src/psrpcore/_client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/_client.py b/src/psrpcore/_client.py
index 1c29340..4706e44 100644
--- a/src/psrpcore/_client.py
+++ b/src/psrpcore/_client.py
@@ -364,8 +364,10 @@ class ClientRunspacePool(RunspacePool["_ClientPipeline"]):
         event: PipelineStateEvent,
     ) -> None:
         pipeline_id = event.pipeline_id
-        pipeline = self.pipeline_table[pipeline_id]
-        pipeline.state = event.state
+        # The pipeline may have already been closed locally before the peer's state message was received.
+        pipeline = self.pipeline_table.get(pipeline_id, None)
+        if pipeline is not None:
+            pipeline.state = event.state
 
     def _process_ProgressRecord(
         self,
-- 
2.43.0


From d814e476715320a6dbe6f446defb22f2c22bc23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:30:05 +0000
Subject: [PATCH 17/47] fix: only mark the CLIXML header as written when it was
 written

Calling data_to_send() before anything was written resulted in output without
the CLIXML header.
---
 src/psrpcore/_clixml_shell.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/src/psrpcore/_clixml_shell.py b/src/psrpcore/_clixml_shell.py
index 5580245..159a046 100644
--- a/src/psrpcore/_clixml_shell.py
+++ b/src/psrpcore/_clixml_shell.py
@@ -318,14 +318,14 @@ class ClixmlShell:
         Returns:
             str: The string to write to stdout.
         """
-        if self._written_marker:
-            prefix = "\n"
-        else:
-            prefix = "#< CLIXML\n"
-            self._written_marker = True
-
         stdout = ""
         if self._stdout:
+            if self._written_marker:
+                prefix = "\n"
+            else:
+                prefix = "#< CLIXML\n"
+                self._written_marker = True
+
             stdout = f"{prefix}{serialize_clixml(self._stdout, self._cipher)}"
             self._stdout = []
 
-- 
2.43.0


From c87e65ec9c0470795ac77bf52580aab8acd2a0d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:54:07 +0000
Subject: [PATCH 18/47] fix: keep messages that reuse the object id of one not
 processed yet

---
 src/psrpcore/_base.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index 7e6508f..24436db 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -145,7 +145,7 @@ class RunspacePool(typing.Generic[T1]):
         self._incoming_fragments: typing.Dict[int, typing.List[bytearray]] = {}
 
         # Messages from combined fragments that have been received but not yet returned.
-        self._incoming_messages: typing.Dict[int, PSRPMessage] = {}
+        self._incoming_messages: typing.List[PSRPMessage] = []
 
     @property
     def max_runspaces(
@@ -343,13 +343,12 @@ class RunspacePool(typing.Generic[T1]):
                 message = PSRPMessage(
                     raw_message.message_type, raw_message.data, raw_message.rpid, raw_message.pid, fragment.object_id
                 )
-                self._incoming_messages[fragment.object_id] = message
+                self._incoming_messages.append(message)
                 del self._incoming_fragments[fragment.object_id]
 
-        for object_id in list(self._incoming_messages.keys()):
-            message = self._incoming_messages[object_id]
+        if self._incoming_messages:
             # In case of a failure it is expected for the client to receive the correct data instead
-            del self._incoming_messages[object_id]
+            message = self._incoming_messages.pop(0)
 
             event = self._process_message(message)
 
-- 
2.43.0


From cfa2cb80a060ba0697bd65dbb2dde355094181fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:01:44 +0000
Subject: [PATCH 19/47] fix: do not start opening a pool whose arguments cannot
 be serialized

---
 src/psrpcore/_client.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/src/psrpcore/_client.py b/src/psrpcore/_client.py
index 4706e44..333626d 100644
--- a/src/psrpcore/_client.py
+++ b/src/psrpcore/_client.py
@@ -124,19 +124,26 @@ class ClientRunspacePool(RunspacePool["_ClientPipeline"]):
             raise InvalidRunspacePoolState("open a Runspace Pool", self.state, [RunspacePoolState.BeforeOpen])
 
         host = self.host or HostInfo()
-        self._change_state(RunspacePoolState.Opening)
 
         self.prepare_message(self.our_capability)
-        self.prepare_message(
-            InitRunspacePool(
-                MinRunspaces=self._min_runspaces,
-                MaxRunspaces=self._max_runspaces,
-                PSThreadOptions=self.thread_options,
-                ApartmentState=self.apartment_state,
-                HostInfo=host,
-                ApplicationArguments=self.application_arguments,
+        try:
+            self.prepare_message(
+                InitRunspacePool(
+                    MinRunspaces=self._min_runspaces,
+                    MaxRunspaces=self._max_runspaces,
+                    PSThreadOptions=self.thread_options,
+                    ApartmentState=self.apartment_state,
+                    HostInfo=host,
+                    ApplicationArguments=self.application_arguments,
+                )
             )
-        )
+        except Exception:
+            # The arguments could not be serialized, the pool is not being opened so do not send the capability.
+            self._send_buffer.pop()
+            self._fragment_count -= 1
+            raise
+
+        self._change_state(RunspacePoolState.Opening)
 
     def connect(self) -> None:
         """Connects to the Runspace Pool.
-- 
2.43.0


From 7201e7d9437882e93a2e9863299df36654ce452b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:02:02 +0000
Subject: [PATCH 20/47] fix: refuse a connection to a different Runspace Pool
 without any effect

---
 src/psrpcore/_server.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/src/psrpcore/_server.py b/src/psrpcore/_server.py
index fca9014..6ae2665 100644
--- a/src/psrpcore/_server.py
+++ b/src/psrpcore/_server.py
@@ -318,6 +318,9 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         self,
         event: ConnectRunspacePoolEvent,
     ) -> None:
+        if self.runspace_pool_id != event.runspace_pool_id:
+            raise PSRPCoreError("Incoming connection is targeted towards a different Runspace Pool")
+
         # FIXME: Verify this behaviour when the props aren't set or when invalid ones are
         self._max_runspaces = event.max_runspaces or self.max_runspaces
         self._min_runspaces = event.min_runspaces or self.min_runspaces
@@ -418,13 +421,12 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         self,
         event: SessionCapabilityEvent,
     ) -> None:
-        super()._process_SessionCapability(event)
+        if self.state == RunspacePoolState.Connecting and self.runspace_pool_id != event.runspace_pool_id:
+            raise PSRPCoreError("Incoming connection is targeted towards a different Runspace Pool")
 
-        if self.state == RunspacePoolState.Connecting:
-            if self.runspace_pool_id != event.runspace_pool_id:
-                raise PSRPCoreError("Incoming connection is targeted towards a different Runspace Pool")
+        super()._process_SessionCapability(event)
 
-        else:
+        if self.state != RunspacePoolState.Connecting:
             self.prepare_message(self.our_capability)
             self.runspace_pool_id = event.runspace_pool_id
 
-- 
2.43.0


From 6e0db2cbec3b26d315a8271de585ff17a1e59aeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 16:03:00 +0000
Subject: [PATCH 21/47] fix: refuse a bool as the number of available runspaces

---
 src/psrpcore/_server.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/_server.py b/src/psrpcore/_server.py
index 6ae2665..ee50237 100644
--- a/src/psrpcore/_server.py
+++ b/src/psrpcore/_server.py
@@ -274,7 +274,9 @@ class ServerRunspacePool(RunspacePool["ServerPipeline"]):
         ):
             raise PSRPCoreError(f"Response for this event expects a bool not {type(response).__name__}")
 
-        if isinstance(event, GetAvailableRunspacesEvent) and not isinstance(response, int):
+        if isinstance(event, GetAvailableRunspacesEvent) and (
+            isinstance(response, bool) or not isinstance(response, int)
+        ):
             raise PSRPCoreError(f"Response for this event expects an int not {type(response).__name__}")
 
         del self._ci_events[ci]
-- 
2.43.0


From 0e01436262ec41d8c1ec82a32eeddb90c6054c2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:12 +0000
Subject: [PATCH 22/47] fix: do not use an exponent when serializing a decimal

---
 src/psrpcore/types/_serializer.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 62a3e2b..0af6ec8 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -742,7 +742,10 @@ class _Serializer:
                 xml_value = int(xml_value)
 
             element = ElementTree.Element(self._type_to_element[ps_type])
-            element.text = str(xml_value).upper()  # upper() needed for the Double and Single types.
+            if isinstance(xml_value, decimal.Decimal):
+                element.text = f"{xml_value:f}"  # The Decimal type does not allow an exponent.
+            else:
+                element.text = str(xml_value).upper()  # upper() needed for the Double and Single types.
 
         # Naive strings
         elif isinstance(
-- 
2.43.0


From c2f434cbf8c5e42773c9087a2f533b19fd352d18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:00:12 +0000
Subject: [PATCH 23/47] fix: use the documented casing of NaN when serializing
 a float

---
 src/psrpcore/types/_serializer.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 0af6ec8..f4eb1a3 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -745,7 +745,8 @@ class _Serializer:
             if isinstance(xml_value, decimal.Decimal):
                 element.text = f"{xml_value:f}"  # The Decimal type does not allow an exponent.
             else:
-                element.text = str(xml_value).upper()  # upper() needed for the Double and Single types.
+                # upper() needed for the Double and Single types except for NaN which has its own casing.
+                element.text = str(xml_value).upper().replace("NAN", "NaN")
 
         # Naive strings
         elif isinstance(
-- 
2.43.0


From 807740fe515237c49a50bc53a130cc24cbf1cf62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:01:34 +0000
Subject: [PATCH 24/47] fix: deserialize properties and container entries in
 document order

A reference to an object or type name list that first occurs in an extended
property of a container could not be resolved from its entries, the same
for adapted properties refering to extended ones written before them.
---
 src/psrpcore/types/_serializer.py | 77 ++++++++++++++++---------------
 1 file changed, 41 insertions(+), 36 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index f4eb1a3..25228f7 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -1058,17 +1058,13 @@ class _Serializer:
         elif issubclass(rehydrated_value, (PSEnumBase, PSFlagBase)):
             original_type_names = rehydrated_value.PSObject.type_names
 
-        props: typing.Dict[str, typing.Optional[ElementTree.Element]] = {
-            "adapted_properties": None,
-            "extended_properties": None,
-        }
+        # The properties and container entries can refer to each other, they are deserialized in document order after the
+        # value that holds them was created.
+        contents: typing.List[ElementTree.Element] = []
         to_string = None
         for obj_entry in element:
-            if obj_entry.tag == "Props":
-                props["adapted_properties"] = obj_entry
-
-            elif obj_entry.tag == "MS":
-                props["extended_properties"] = obj_entry
+            if obj_entry.tag in ["Props", "MS"]:
+                contents.append(obj_entry)
 
             elif obj_entry.tag == "ToString":
                 to_string = self.deserialize(obj_entry)
@@ -1079,24 +1075,13 @@ class _Serializer:
                     dict_type = type(value)
 
                 value = self._update_value_ref(dict_type(), ref_id)
-
-                for dict_entry in obj_entry:
-                    dict_key = dict_entry.find('*/[@N="Key"]')
-                    dict_value = dict_entry.find('*/[@N="Value"]')
-                    if dict_key is None:
-                        raise ValueError("Failed to find dict Key attribute")
-
-                    if dict_value is None:
-                        raise ValueError("Failed to find dict Value attribute")
-
-                    value[self.deserialize(dict_key)] = self.deserialize(dict_value)
+                contents.append(obj_entry)
 
             elif obj_entry.tag == self._type_to_element[PSQueue]:
                 if not isinstance(value, PSQueueBase):
                     value = self._update_value_ref(PSQueue(), ref_id)
 
-                for queue_entry in obj_entry:
-                    value.put(self.deserialize(queue_entry))
+                contents.append(obj_entry)
 
             elif obj_entry.tag in [
                 self._type_to_element[PSIEnumerable],
@@ -1118,8 +1103,7 @@ class _Serializer:
                     list_type = type(value)
 
                 value = self._update_value_ref(list_type(), ref_id)
-                for list_entry in obj_entry:
-                    value.append(self.deserialize(list_entry))
+                contents.append(obj_entry)
 
             elif obj_entry.tag not in ["TN", "TNRef"]:
                 # Extended primitive types and enums store the value as a sub element of the Obj.
@@ -1143,18 +1127,39 @@ class _Serializer:
             if original_type_names:
                 value.PSObject.type_names = original_type_names
 
-            for prop_group_name, prop_xml in props.items():
-                if prop_xml is None:
-                    continue
-
-                # add_note_property only sets to extended properties. We just use the actual prop list as the scratch
-                # object's extended properties. Anything modified/added will reflect in our actual object property.
-                scratch_obj = PSCustomObject()
-                scratch_obj.PSObject.extended_properties = getattr(value.PSObject, prop_group_name)
-                for obj_property in prop_xml:
-                    prop_name = _deserialize_string(obj_property.attrib["N"])
-                    prop_value = self.deserialize(obj_property)
-                    add_note_property(scratch_obj, prop_name, prop_value, force=True)
+            for content in contents:
+                if content.tag in ["Props", "MS"]:
+                    # add_note_property only sets to extended properties. We just use the actual prop list as the
+                    # scratch object's extended properties. Anything modified/added will reflect in our actual object
+                    # property.
+                    prop_group_name = "adapted_properties" if content.tag == "Props" else "extended_properties"
+                    scratch_obj = PSCustomObject()
+                    scratch_obj.PSObject.extended_properties = getattr(value.PSObject, prop_group_name)
+                    for obj_property in content:
+                        prop_name = _deserialize_string(obj_property.attrib["N"])
+                        prop_value = self.deserialize(obj_property)
+                        add_note_property(scratch_obj, prop_name, prop_value, force=True)
+
+                elif content.tag == self._type_to_element[PSDict]:
+                    for dict_entry in content:
+                        dict_key = dict_entry.find('*/[@N="Key"]')
+                        dict_value = dict_entry.find('*/[@N="Value"]')
+                        if dict_key is None:
+                            raise ValueError("Failed to find dict Key attribute")
+
+                        if dict_value is None:
+                            raise ValueError("Failed to find dict Value attribute")
+
+                        key = self.deserialize(dict_key)
+                        value[key] = self.deserialize(dict_value)
+
+                elif content.tag == self._type_to_element[PSQueue]:
+                    for queue_entry in content:
+                        value.put(self.deserialize(queue_entry))
+
+                else:
+                    for list_entry in content:
+                        value.append(self.deserialize(list_entry))
 
         # Final override that allows classes to transform the raw CLIXML deserialized object to something more human
         # friendly.
-- 
2.43.0


From 989208b852933ad7afdc7af838d8f28cba320ae6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:49 +0000
Subject: [PATCH 25/47] fix: use the STA apartment state that was asked for a
 pipeline

---
 src/psrpcore/_client.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/_client.py b/src/psrpcore/_client.py
index 333626d..4e11706 100644
--- a/src/psrpcore/_client.py
+++ b/src/psrpcore/_client.py
@@ -564,7 +564,7 @@ class ClientPowerShell(_ClientPipeline):
         super().__init__(runspace_pool=runspace_pool, pipeline_id=pipeline_id)
         self.metadata: PowerShell = PowerShell(
             add_to_history=add_to_history,
-            apartment_state=apartment_state or runspace_pool.apartment_state,
+            apartment_state=runspace_pool.apartment_state if apartment_state is None else apartment_state,
             history=history,
             host=host,
             is_nested=is_nested,
-- 
2.43.0


From b56a491235c1609e4fc2ad838b165b6ba4927f96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:49 +0000
Subject: [PATCH 26/47] fix: support invocation info without a command origin

---
 src/psrpcore/types/_complex.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_complex.py b/src/psrpcore/types/_complex.py
index b34a45e..6fddf70 100644
--- a/src/psrpcore/types/_complex.py
+++ b/src/psrpcore/types/_complex.py
@@ -621,6 +621,10 @@ def _invocation_info_from_ps_object(
         else:  # pragma: no cover
             ps_script_root = ntpath.dirname(ps_command_path)
 
+    command_origin = obj.InvocationInfo_CommandOrigin
+    if command_origin is not None:
+        command_origin = CommandOrigin(command_origin)
+
     my_command = None
     command_type = getattr(obj, "CommandInfo_CommandType", None)
     if command_type is not None:
@@ -633,7 +637,7 @@ def _invocation_info_from_ps_object(
 
     return InvocationInfo(
         BoundParameters=getattr(obj, "InvocationInfo_BoundParameters", None) or PSDict(),
-        CommandOrigin=CommandOrigin(obj.InvocationInfo_CommandOrigin),
+        CommandOrigin=command_origin,
         DisplayScriptPosition=display_script_position,
         ExpectingInput=obj.InvocationInfo_ExpectingInput,
         HistoryId=obj.InvocationInfo_HistoryId,
-- 
2.43.0


From 18bcfd807976b09960cf4b5a0a96bc1765133a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:49 +0000
Subject: [PATCH 27/47] fix: support getting the text of a script extent
 without column numbers

---
 src/psrpcore/types/_complex.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/src/psrpcore/types/_complex.py b/src/psrpcore/types/_complex.py
index 6fddf70..96d4a72 100644
--- a/src/psrpcore/types/_complex.py
+++ b/src/psrpcore/types/_complex.py
@@ -488,15 +488,18 @@ class ScriptExtent(PSObject):
 
     @property
     def _text(self) -> PSString:
-        if self.EndColumnNumber < 1:
+        start_column = self.StartColumnNumber or 0
+        end_column = self.EndColumnNumber or 0
+
+        if end_column < 1:
             val = ""
 
         elif self.StartLineNumber == self.EndLineNumber:
-            val = self._start.Line[max(self.StartColumnNumber - 1, 0) : self.EndColumnNumber]
+            val = self._start.Line[max(start_column - 1, 0) : end_column]
 
         else:
-            start = self._start.Line[self.StartColumnNumber :]
-            end = self._end.Line[self.EndColumnNumber :]
+            start = self._start.Line[start_column:]
+            end = self._end.Line[end_column:]
             val = f"{start}...{end}"
 
         return PSString(val)
-- 
2.43.0


From 1a94089b47ae90383806c8c0943436076688bd55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:22:49 +0000
Subject: [PATCH 28/47] fix: keep the empty strings of error details and a
 script stack trace

---
 src/psrpcore/types/_complex.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/psrpcore/types/_complex.py b/src/psrpcore/types/_complex.py
index 96d4a72..7db1ad5 100644
--- a/src/psrpcore/types/_complex.py
+++ b/src/psrpcore/types/_complex.py
@@ -835,7 +835,7 @@ class ErrorRecord(PSObject):
         error_details = None
         error_details_message = getattr(obj, "ErrorDetails_Message", None)
         error_details_action = getattr(obj, "ErrorDetails_RecommendedAction", None)
-        if error_details_message or error_details_action:
+        if error_details_message is not None or error_details_action is not None:
             error_details = ErrorDetails(
                 Message=error_details_message,
                 RecommendedAction=error_details_action,
@@ -883,11 +883,11 @@ class ErrorRecord(PSObject):
         add_note_property(obj, "ErrorCategory_TargetType", instance.CategoryInfo.TargetType)
         add_note_property(obj, "ErrorCategory_Message", str(instance.CategoryInfo))
 
-        if instance.ErrorDetails:
+        if instance.ErrorDetails is not None:
             add_note_property(obj, "ErrorDetails_Message", instance.ErrorDetails.Message)
             add_note_property(obj, "ErrorDetails_RecommendedAction", instance.ErrorDetails.RecommendedAction)
 
-        if instance.ScriptStackTrace:
+        if instance.ScriptStackTrace is not None:
             add_note_property(obj, "ErrorDetails_ScriptStackTrace", instance.ScriptStackTrace)
 
         if instance.serialize_extended_info and instance.InvocationInfo:
-- 
2.43.0


From e19febac5c1cfc28889bda35bf933fa26ab1602d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:05:03 +0000
Subject: [PATCH 29/47] fix: set the declared properties of a PSCustomObject
 sub class

---
 src/psrpcore/types/_complex.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psrpcore/types/_complex.py b/src/psrpcore/types/_complex.py
index 7db1ad5..77611ba 100644
--- a/src/psrpcore/types/_complex.py
+++ b/src/psrpcore/types/_complex.py
@@ -74,6 +74,10 @@ class PSCustomObject(PSObject):
     """
 
     def __init__(self, **kwargs: typing.Any) -> None:
+        # The properties a sub class was registered with are already on the object, they only need to be set.
+        declared = {p.name for p in self.PSObject.adapted_properties + self.PSObject.extended_properties}
+        super().__init__(**{name: kwargs.pop(name) for name in list(kwargs) if name in declared})
+
         for prop_name, prop_value in kwargs.items():
             # Special use case with [PSCustomObject]@{PSTypeName = 'TypeName'} in PowerShell where the value is
             # added to the top of the objects type names.
-- 
2.43.0


From c10cbf8d6a92b47900035693288b5a4bfc73b62f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 19:28:34 +0000
Subject: [PATCH 30/47] fix: let a PSType declare a property of its parent
 again

---
 src/psrpcore/types/_base.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_base.py b/src/psrpcore/types/_base.py
index 87d8df7..ceb0faa 100644
--- a/src/psrpcore/types/_base.py
+++ b/src/psrpcore/types/_base.py
@@ -780,8 +780,14 @@ class PSType:
 
         if not self.skip_inheritance:
             self.type_names.extend(cls.PSObject.type_names)
-            self.adapted_properties.extend(cls.PSObject.adapted_properties)
-            self.extended_properties.extend(cls.PSObject.extended_properties)
+
+            # A property declared again by this class replaces the one of the parent.
+            for own, inherited in [
+                (self.adapted_properties, cls.PSObject.adapted_properties),
+                (self.extended_properties, cls.PSObject.extended_properties),
+            ]:
+                own_names = {p.name for p in own}
+                own.extend(p for p in inherited if p.name not in own_names)
 
         cls.PSObject = PSObjectMeta(self.type_names, self.adapted_properties, self.extended_properties)
 
-- 
2.43.0


From 3d3259681f49ab318b129ed5465dda2cb9fd5133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:45 +0000
Subject: [PATCH 31/47] fix: read CLIXML text made of several documents or with
 a declaration

---
 src/psrpcore/types/_serializer.py | 48 +++++++++++++++----------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 25228f7..622dd1d 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -174,36 +174,36 @@ def deserialize_clixml(
         list[typing.Any]: The list of Python objects that were created from the
         CLIXML string. Each entry will be a tuple if ``preserve_streams=True``.
     """
-    serializer = _Serializer(cipher)
-
-    # Strip out the CLIXML header if it is present
-    if clixml.startswith("#< CLIXML"):
-        clixml = clixml[9:].lstrip("\r\n")
+    # The text can hold the documents of more than one write, each with its own
+    # header and XML declaration which are not valid inside another element.
+    clixml = re.sub(r"(^\ufeff?|(?<=>))\s*((#< CLIXML|<\?xml\s[^>]*\?>)\s*)+", "", clixml)
+    docs = ElementTree.fromstring(f"<Documents>{clixml}</Documents>")
+    if any((doc.tail or "").strip() for doc in docs) or (not len(docs) and (docs.text or "").strip()):
+        raise ElementTree.ParseError("text found outside of the CLIXML documents")
 
     # ElementTree will process the xmlns value and apply it to each element
-    # breaking our parser. It is easier to just strip it from the root Objs
-    # element.
-    objs_header_end_idx = clixml.find(">")
-    if clixml[objs_header_end_idx - 1] == "/":
-        objs_header_end_idx -= 1  # Self closing element, there are no entries
-    clixml = "<Objs" + clixml[objs_header_end_idx:]
-
-    raw_clixml = ElementTree.fromstring(clixml)
+    # breaking our parser so it is stripped here.
+    for element in docs.iter():
+        element.tag = element.tag.rpartition("}")[2]
+
     values = []
-    for raw in raw_clixml:
-        v = serializer.deserialize(raw)
+    for doc in docs:
+        serializer = _Serializer(cipher)  # RefIds are scoped to their document
+
+        for raw in doc:
+            v = serializer.deserialize(raw)
 
-        if preserve_streams:
-            stream_type = ClixmlStream.OUTPUT
-            if stream_attr := raw.attrib.get("S", None):
-                try:
-                    stream_type = ClixmlStream(stream_attr.lower())
-                except ValueError:
-                    pass
+            if preserve_streams:
+                stream_type = ClixmlStream.OUTPUT
+                if stream_attr := raw.attrib.get("S", None):
+                    try:
+                        stream_type = ClixmlStream(stream_attr.lower())
+                    except ValueError:
+                        pass
 
-            v = (v, stream_type)
+                v = (v, stream_type)
 
-        values.append(v)
+            values.append(v)
 
     return values
 
-- 
2.43.0


From 9ddf757ee6d50d667eb7b97e3ea80ebf6684a15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:45 +0000
Subject: [PATCH 32/47] fix: read progress records that are not wrapped

---
 src/psrpcore/_clixml_shell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/_clixml_shell.py b/src/psrpcore/_clixml_shell.py
index 159a046..c552293 100644
--- a/src/psrpcore/_clixml_shell.py
+++ b/src/psrpcore/_clixml_shell.py
@@ -248,7 +248,7 @@ class ClixmlOutput:
                     out.warning.append(WarningRecord(Message=str(obj)))
 
                 elif stream == ClixmlStream.PROGRESS:
-                    out.progress.append(obj.Record)
+                    out.progress.append(obj if isinstance(obj, ProgressRecord) else obj.Record)
 
                 elif stream == ClixmlStream.INFORMATION:
                     out.information.append(obj)
-- 
2.43.0


From 1aec9a13ca1bf24fa9c231222be59c7ca24154db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:11:45 +0000
Subject: [PATCH 33/47] fix: write the CLIXML header after a failure to write
 the first values

---
 src/psrpcore/_clixml_shell.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/src/psrpcore/_clixml_shell.py b/src/psrpcore/_clixml_shell.py
index c552293..d5bf25e 100644
--- a/src/psrpcore/_clixml_shell.py
+++ b/src/psrpcore/_clixml_shell.py
@@ -320,13 +320,9 @@ class ClixmlShell:
         """
         stdout = ""
         if self._stdout:
-            if self._written_marker:
-                prefix = "\n"
-            else:
-                prefix = "#< CLIXML\n"
-                self._written_marker = True
-
+            prefix = "\n" if self._written_marker else "#< CLIXML\n"
             stdout = f"{prefix}{serialize_clixml(self._stdout, self._cipher)}"
+            self._written_marker = True
             self._stdout = []
 
         return stdout
-- 
2.43.0


From be028ba1a2fc66d5e2f031346fd653cb696b5676 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:22 +0000
Subject: [PATCH 34/47] fix: check the range of an integer made from an enum
 value

---
 src/psrpcore/types/_primitive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 34bbeeb..8918854 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -124,7 +124,7 @@ class PSIntegerBase(PSObject, int):
 
         if cls != type(num):
             # If the value is not the exact instance recreate it from an actual int.
-            return super().__new__(cls, int(num))
+            num = super().__new__(cls, int(num))
 
         int_num = int(num)
 
-- 
2.43.0


From 59280ad92a291f15b9f3bbfc815881fb66d918ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:22 +0000
Subject: [PATCH 35/47] fix: refuse a version string with a trailing newline or
 non-ASCII digits

---
 src/psrpcore/types/_primitive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 8918854..9f25b3a 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -28,7 +28,7 @@ from psrpcore.types._base import PSCryptoProvider, PSObject, PSType
 # Used by PSVersion to validate the string input. Must be int.int with an optional 3rd and 4th integer values.
 _VERSION_PATTERN = re.compile(
     r"""
-^
+\A
 (?P<major>0|[1-9]\d*)               # The major version, can only have a leading 0 if that's the only value.
 \.
 (?P<minor>0|[1-9]\d*)               # The minor version.
@@ -38,9 +38,9 @@ _VERSION_PATTERN = re.compile(
         \.(?P<revision>0|[1-9]\d*)  # The optional revision version.
     )?
 )?                                  # The 3rd and 4th versions are optional, we just require major.minor.
-$
+\Z
 """,
-    re.VERBOSE,
+    re.VERBOSE | re.ASCII,
 )
 
 
-- 
2.43.0


From 6eab695b53fc12b044368863bc0c3c07ca655ecc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:22 +0000
Subject: [PATCH 36/47] fix: refuse version components outside 0 to
 Int32.MaxValue

---
 src/psrpcore/types/_primitive.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 9f25b3a..d73a59d 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -1034,6 +1034,13 @@ class PSVersion(PSObject):
         elif revision is not None and build is None:
             raise ValueError(f"The build version must be set when revision is set.")
 
+        for field, value in [("major", major), ("minor", minor), ("build", build), ("revision", revision)]:
+            if value is not None and (value < 0 or value > PSInt.MaxValue):
+                raise ValueError(
+                    f"Cannot create {self.__class__.__qualname__} with {field} value '{value}': Value must be "
+                    f"between 0 and {PSInt.MaxValue}."
+                )
+
         self.major = major
         self.minor = minor
         self.build = build
-- 
2.43.0


From 8ce570036559548cf6bf2639c8f7c704d78c49b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:22 +0000
Subject: [PATCH 37/47] fix: create a PSChar from half a surrogate pair and
 refuse an empty string

---
 src/psrpcore/types/_primitive.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index d73a59d..8cf6838 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -271,9 +271,9 @@ class PSChar(PSObject, int):
             raw_args[0] = raw_args[0].decode("utf-8")
 
         if isinstance(raw_args[0], str):
-            # Ensure we are dealing with a UTF-8 string before converting to UTF-16
-            b_value = raw_args[0].encode("utf-16-le")
-            if len(b_value) > 2:
+            # Ensure we are dealing with a UTF-8 string before converting to UTF-16, half of a surrogate pair is valid
+            b_value = raw_args[0].encode("utf-16-le", errors="surrogatepass")
+            if len(b_value) != 2:
                 raise ValueError("A PSChar must be 1 UTF-16 codepoint.")
 
             raw_args[0] = struct.unpack("<H", b_value)[0]
-- 
2.43.0


From d7cd14031ba7138bd0d95b4877525ace9a6df6a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:22 +0000
Subject: [PATCH 38/47] fix: make PSVersion and PSDuration hashable

---
 src/psrpcore/types/_primitive.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 8cf6838..e4ccb83 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -537,6 +537,10 @@ class PSDuration(PSObject, datetime.timedelta):
     ) -> bool:
         return _timedelta_total_nanoseconds(self) == _timedelta_total_nanoseconds(other)
 
+    def __hash__(self) -> int:
+        # Is equal to a timedelta when there are no nanoseconds so the hash must be the same.
+        return super().__hash__()
+
     @_ensure_types_and_self(datetime.timedelta)
     def __ne__(
         self,
@@ -1072,6 +1076,10 @@ class PSVersion(PSObject):
 
         return self._cmp(other, operator.eq, "==")
 
+    def __hash__(self) -> int:
+        # Is equal to the string of the version so the hash must be the same.
+        return hash(str(self))
+
     def __ge__(
         self,
         other: typing.Union["PSVersion", str],
-- 
2.43.0


From 3132def2312584371f4124f9204ea93191bf5962 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:22 +0000
Subject: [PATCH 39/47] fix: keep the nanoseconds when a PSDuration is the
 right side of an addition

---
 src/psrpcore/types/_primitive.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index e4ccb83..6553222 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -406,6 +406,8 @@ class PSDateTime(PSObject, datetime.datetime):
 
         return new_date
 
+    __radd__ = __add__
+
     def __sub__(  # type: ignore[override] # cannot seem to document NotImplemented as a return type
         self,
         other: typing.Union[datetime.datetime, datetime.timedelta],
@@ -509,6 +511,8 @@ class PSDuration(PSObject, datetime.timedelta):
         new_nano = _timedelta_total_nanoseconds(self) + _timedelta_total_nanoseconds(other)
         return PSDuration(nanoseconds=new_nano)
 
+    __radd__ = __add__
+
     @_ensure_types_and_self(datetime.timedelta)
     def __sub__(
         self,
-- 
2.43.0


From 3779dd9f47764d8e3bab6d2354cb6359d00e09e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:46:22 +0000
Subject: [PATCH 40/47] fix: keep the nanoseconds in PSDateTime.replace and
 astimezone

---
 src/psrpcore/types/_primitive.py | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 6553222..936261d 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -419,6 +419,19 @@ class PSDateTime(PSObject, datetime.datetime):
         nanosecond_diff = self.nanosecond - getattr(other, "nanosecond", 0)
         return duration + PSDuration(nanoseconds=nanosecond_diff)
 
+    def replace(self, *args: typing.Any, **kwargs: typing.Any) -> "PSDateTime":  # type: ignore[override]
+        nanosecond = kwargs.pop("nanosecond", self.nanosecond)
+        new_date = PSDateTime(super().replace(*args, **kwargs))
+        new_date.nanosecond = nanosecond
+
+        return new_date
+
+    def astimezone(self, *args: typing.Any, **kwargs: typing.Any) -> "PSDateTime":  # type: ignore[override]
+        new_date = PSDateTime(super().astimezone(*args, **kwargs))
+        new_date.nanosecond = self.nanosecond
+
+        return new_date
+
     @classmethod
     def strptime(
         cls,
-- 
2.43.0


From be23b5463d7dccb7401e73f5c1d4fafbce2d60b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 41/47] fix: encrypt a secure string received in another
 session with the key of this one

---
 src/psrpcore/types/_primitive.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 936261d..3b1d98e 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -1267,5 +1267,9 @@ class PSSecureString(PSObject):
             # the value and return that for serialization.
             return cls(cipher.encrypt(instance._value), cipher)
 
+        elif instance._cipher is not cipher:
+            # The value came from another session, the peer of this one only knows the key of its own session.
+            return cls(cipher.encrypt(str(instance.decrypt())), cipher)
+
         else:
             return instance
-- 
2.43.0


From a739842ae7e8ed8dd2ad6373cd425103118620b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:18:12 +0000
Subject: [PATCH 42/47] fix: send null as pipeline input

---
 src/psrpcore/_base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/psrpcore/_base.py b/src/psrpcore/_base.py
index 24436db..d00a6fa 100644
--- a/src/psrpcore/_base.py
+++ b/src/psrpcore/_base.py
@@ -377,7 +377,7 @@ class RunspacePool(typing.Generic[T1]):
                 targets the runspace pool.
             stream_type: The stream type the message is for.
         """
-        if message is None:
+        if message is None and message_type in (None, PSRPMessageType.PipelineOutput):
             b_data = b""
             message_type = PSRPMessageType.PipelineOutput
 
-- 
2.43.0


From 127f0bcf6ff7425393ecf83cb67c63398f17023d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:03 +0000
Subject: [PATCH 43/47] fix: give the value of a byte for an item of
 PSByteArray

---
 src/psrpcore/types/_primitive.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 3b1d98e..ceef430 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -888,8 +888,9 @@ class PSByteArray(PSObject, bytes):
             return super().__getitem__(item)
 
         else:
-            # String indexing, need to preserve the type.
-            return type(self)(bytes.__getitem__(self, item))
+            # A slice needs to preserve the type, a single item is the value of the byte.
+            value = bytes.__getitem__(self, item)
+            return value if isinstance(value, int) else type(self)(value)
 
     def __repr__(self) -> str:
         return bytes.__repr__(self)
-- 
2.43.0


From 09300105a554076304e7f60e2948da0322fea546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:03 +0000
Subject: [PATCH 44/47] fix: keep the nanoseconds of a PSDateTime given to
 PSDateTime

---
 src/psrpcore/types/_primitive.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index ceef430..db8bcca 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -342,6 +342,9 @@ class PSDateTime(PSObject, datetime.datetime):
         if "nanosecond" in kwargs:
             nanosecond = kwargs.pop("nanosecond")
 
+        elif args and isinstance(args[0], PSDateTime):
+            nanosecond = getattr(args[0], "nanosecond", 0)
+
         if args and isinstance(args[0], datetime.datetime):
             dt = args[0]
             instance = super().__new__(
-- 
2.43.0


From 14658d99624f0bfefaed3281e8ffae253ae9dbb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:03 +0000
Subject: [PATCH 45/47] fix: compare dates to the nanosecond

---
 src/psrpcore/types/_primitive.py | 36 ++++++++++++++++++++++++++++++++
 1 file changed, 36 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index db8bcca..3ca8c87 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -422,6 +422,42 @@ class PSDateTime(PSObject, datetime.datetime):
         nanosecond_diff = self.nanosecond - getattr(other, "nanosecond", 0)
         return duration + PSDuration(nanoseconds=nanosecond_diff)
 
+    def __eq__(self, other: object) -> bool:
+        res = super().__eq__(other)
+        return self.nanosecond == getattr(other, "nanosecond", 0) if res is True else res
+
+    def __hash__(self) -> int:
+        # Is equal to a datetime when there are no nanoseconds so the hash must be the same.
+        return super().__hash__()
+
+    def __ne__(self, other: object) -> bool:
+        res = super().__ne__(other)
+        return self.nanosecond != getattr(other, "nanosecond", 0) if res is False else res
+
+    def __le__(self, other: datetime.datetime) -> bool:  # type: ignore[override]
+        return self._cmp(other, super().__le__(other), operator.le)
+
+    def __lt__(self, other: datetime.datetime) -> bool:  # type: ignore[override]
+        return self._cmp(other, super().__lt__(other), operator.lt)
+
+    def __ge__(self, other: datetime.datetime) -> bool:  # type: ignore[override]
+        return self._cmp(other, super().__ge__(other), operator.ge)
+
+    def __gt__(self, other: datetime.datetime) -> bool:  # type: ignore[override]
+        return self._cmp(other, super().__gt__(other), operator.gt)
+
+    def _cmp(
+        self,
+        other: datetime.datetime,
+        res: bool,
+        compare: typing.Callable[[int, int], bool],
+    ) -> bool:
+        """Compare the nanoseconds if the rest of the date is the same."""
+        if super().__eq__(other) is True:
+            return compare(self.nanosecond, getattr(other, "nanosecond", 0))
+
+        return res
+
     def replace(self, *args: typing.Any, **kwargs: typing.Any) -> "PSDateTime":  # type: ignore[override]
         nanosecond = kwargs.pop("nanosecond", self.nanosecond)
         new_date = PSDateTime(super().replace(*args, **kwargs))
-- 
2.43.0


From 6bdaa2f6b2f2ebec7b7e869b8edfa692df93a19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:19:03 +0000
Subject: [PATCH 46/47] fix: read dates with more than seven fraction digits

---
 src/psrpcore/types/_serializer.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/psrpcore/types/_serializer.py b/src/psrpcore/types/_serializer.py
index 622dd1d..87b6c67 100644
--- a/src/psrpcore/types/_serializer.py
+++ b/src/psrpcore/types/_serializer.py
@@ -332,8 +332,8 @@ def _deserialize_datetime(
         if len(fractional_seconds) > 6:
             # .NET should only be showing 100's of nanoseconds but just to be safe we will calculate that based
             # on the length of the fractional seconds found.
-            nanoseconds = int(fractional_seconds[-1:]) * (10 ** (3 + 6 - len(fractional_seconds)))
-            fractional_seconds = fractional_seconds[:-1]
+            nanoseconds = int(fractional_seconds[6:9].ljust(3, "0"))
+            fractional_seconds = fractional_seconds[:6]
 
         timezone_section = fraction_match.group(2)
 
-- 
2.43.0


From fe41ab3a0dc6b8a7916705f66a84c9929b16f4fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:42 +0000
Subject: [PATCH 47/47] fix: count the nanoseconds when a PSDateTime is
 subtracted from a datetime

---
 src/psrpcore/types/_primitive.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/psrpcore/types/_primitive.py b/src/psrpcore/types/_primitive.py
index 3ca8c87..d7796d7 100644
--- a/src/psrpcore/types/_primitive.py
+++ b/src/psrpcore/types/_primitive.py
@@ -422,6 +422,12 @@ class PSDateTime(PSObject, datetime.datetime):
         nanosecond_diff = self.nanosecond - getattr(other, "nanosecond", 0)
         return duration + PSDuration(nanoseconds=nanosecond_diff)
 
+    def __rsub__(self, other: datetime.datetime) -> "PSDuration":  # type: ignore[override]
+        if not isinstance(other, datetime.datetime):
+            return NotImplemented
+
+        return -typing.cast("PSDuration", self - other)
+
     def __eq__(self, other: object) -> bool:
         res = super().__eq__(other)
         return self.nanosecond == getattr(other, "nanosecond", 0) if res is True else res
-- 
2.43.0

