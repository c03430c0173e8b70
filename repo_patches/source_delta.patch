From acf12b59ff3b1758aa062c2b62894a660e322a8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:21:57 +0000
Subject: [PATCH 01/53] fix: decode every _xHHHH_ escape in received text on
 character boundaries

---
 src/pypsrp/serializer.py | 30 +++++++-----------------------
 1 file changed, 7 insertions(+), 23 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 4a6fce7..ea5fe38 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -64,10 +64,8 @@ class Serializer(object):
         # encode according to the PSRP rules
         self._serial_str = re.compile("[\u0000-\u001f\u007f-\u009f\U00010000-\U0010ffff]")
 
-        # to support surrogate UTF-16 pairs we need to use a UTF-16 regex
-        # so we can replace the UTF-16 string representation with the actual
-        # UTF-16 byte value and then decode that
-        self._deserial_str = re.compile(b"\\x00_\\x00x([\\0\\w]{8})\\x00_")
+        # Finds each _xHHHH_ escape, HHHH is the hex value of 1 UTF-16 code unit
+        self._deserial_str = re.compile("_x([0-9A-Fa-f]{4})_")
 
     def serialize(
         self,
@@ -766,25 +764,11 @@ class Serializer(object):
         if value is None:
             return ""
 
-        def rplcr(matchobj):
-            # The matched object is the UTF-16 byte representation of the UTF-8
-            # hex string value. We need to decode the byte str to unicode and
-            # then unhexlify that hex string to get the actual bytes of the
-            # _x****_ value, e.g.
-            # group(0) == b"\x00_\x00x\x000\x000\x000\x00A\x00_"
-            # group(1) == b"\x000\x000\x000\x00A"
-            # unicode (from utf-16-be) == u"000A"
-            # returns b"\x00\x0A"
-            match_hex = matchobj.group(1)
-            hex_string = to_unicode(match_hex, encoding="utf-16-be")
-            return binascii.unhexlify(hex_string)
-
-        # need to ensure we start with a unicode representation of the string
-        # so that we can get the actual UTF-16 bytes value from that string
-        unicode_value = to_unicode(value)
-        unicode_bytes = to_bytes(unicode_value, encoding="utf-16-be")
-        bytes_value = re.sub(self._deserial_str, rplcr, unicode_bytes)
-        return to_unicode(bytes_value, encoding="utf-16-be")
+        # Each escape is a single UTF-16 code unit, surrogate pairs are 2 escapes
+        # so we need to go through UTF-16 to join them together. A surrogate
+        # that isn't part of a pair is valid in a .NET string and is kept as is.
+        unicode_value = re.sub(self._deserial_str, lambda m: chr(int(m.group(1), 16)), to_unicode(value))
+        return unicode_value.encode("utf-16-be", "surrogatepass").decode("utf-16-be", "surrogatepass")
 
     def _deserialize_secure_string(self, value: ET.Element) -> typing.Union[ET.Element, str]:
         if self.cipher is None:
-- 
2.43.0


From e90e24624e6532e7ec5479bd6e48e6fd2b236340 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:29 +0000
Subject: [PATCH 02/53] fix: escape lone surrogates and XML noncharacters in
 sent text

---
 src/pypsrp/serializer.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index ea5fe38..ca659a4 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -60,9 +60,10 @@ class Serializer(object):
         self.tn: typing.Dict = {}
 
         self.cipher: typing.Any = None
-        # Finds C0, C1 and surrogate pairs in a unicode string for us to
-        # encode according to the PSRP rules
-        self._serial_str = re.compile("[\u0000-\u001f\u007f-\u009f\U00010000-\U0010ffff]")
+        # Finds C0, C1, surrogates and the other chars that cannot be in an XML
+        # document in a unicode string for us to encode according to the PSRP
+        # rules
+        self._serial_str = re.compile("[\u0000-\u001f\u007f-\u009f\ud800-\udfff\ufffe\uffff\U00010000-\U0010ffff]")
 
         # Finds each _xHHHH_ escape, HHHH is the hex value of 1 UTF-16 code unit
         self._deserial_str = re.compile("_x([0-9A-Fa-f]{4})_")
@@ -568,7 +569,7 @@ class Serializer(object):
 
         def rplcr(matchobj):
             surrogate_char = matchobj.group(0)
-            byte_char = to_bytes(surrogate_char, encoding="utf-16-be")
+            byte_char = surrogate_char.encode("utf-16-be", "surrogatepass")
             hex_char = to_unicode(binascii.hexlify(byte_char)).upper()
             hex_split = [hex_char[i : i + 4] for i in range(0, len(hex_char), 4)]
 
-- 
2.43.0


From 28ceaa98765f5cf8e915b0f297e2b9f19ce2be91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:42 +0000
Subject: [PATCH 03/53] fix: reference a type name list only when the whole
 list is the same

---
 src/pypsrp/serializer.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index ca659a4..00f7585 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -820,12 +820,13 @@ class Serializer(object):
         parent: ET.Element,
         types: typing.List[str],
     ) -> None:
-        main_type = types[0]
-        ref_id = self.tn.get(main_type, None)
+        # the whole list is the identity, different lists can have the same main type
+        type_key = tuple(types)
+        ref_id = self.tn.get(type_key, None)
         if ref_id is None:
             ref_id = self.tn_id
             self.tn_id += 1
-            self.tn[main_type] = ref_id
+            self.tn[type_key] = ref_id
 
             tn = ET.SubElement(parent, "TN", RefId=str(ref_id))
             for type_name in types:
-- 
2.43.0


From 0a8746e805eb1996becc43bd8dca0b85f20db8d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:22:51 +0000
Subject: [PATCH 04/53] fix: serialize the value of a DT tagged value

---
 src/pypsrp/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 00f7585..3b7dacd 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -113,7 +113,7 @@ class Serializer(object):
             "ToString": lambda d: self._serialize_string(d),
             "C": lambda m, d: str(ord(d)),
             "B": lambda m, d: str(d).lower(),
-            "DT": lambda m, d: None,
+            "DT": lambda m, d: str(d),
             "TS": lambda m, d: str(d),
             "By": lambda m, d: str(d),
             "SB": lambda m, d: str(d),
-- 
2.43.0


From ea6091119e1be0c4bab86a8ded466e74b2e2c421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:23:03 +0000
Subject: [PATCH 05/53] fix: deserialize an empty byte array

---
 src/pypsrp/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 3b7dacd..7e4c498 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -211,7 +211,7 @@ class Serializer(object):
             "Sg": lambda d: float(d.text),
             "Db": lambda d: float(d.text),
             "D": lambda d: d.text,  # TODO: deserialize this
-            "BA": lambda d: base64.b64decode(d.text),
+            "BA": lambda d: base64.b64decode(d.text or ""),
             "G": lambda d: uuid.UUID(d.text),
             "URI": lambda d: self._deserialize_string(d.text),
             "Nil": lambda d: None,
-- 
2.43.0


From 26db62efc117d58b2a9b60ef45b1534e2673985b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:30 +0000
Subject: [PATCH 06/53] fix: escape and unescape property names and type names

---
 src/pypsrp/serializer.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 7e4c498..7870a66 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -92,7 +92,7 @@ class Serializer(object):
 
         if isinstance(value, ET.Element):
             if metadata is not None and metadata.name is not None:
-                value.attrib["N"] = metadata.name
+                value.attrib["N"] = self._serialize_string(metadata.name) or ""
 
             if parent is not None:
                 parent.append(value)
@@ -157,7 +157,7 @@ class Serializer(object):
                 element = element_value
 
         if metadata.name is not None:
-            element.attrib["N"] = metadata.name
+            element.attrib["N"] = self._serialize_string(metadata.name) or ""
 
         if parent is not None:
             parent.append(element)
@@ -674,18 +674,18 @@ class Serializer(object):
         for obj_property in element:
             if obj_property.tag == "TN":
                 for obj_type in obj_property:
-                    obj.types.append(obj_type.text)
+                    obj.types.append(self._deserialize_string(obj_type.text))
                 self.tn[obj_property.attrib["RefId"]] = obj.types
             elif obj_property.tag == "TNRef":
                 obj.types = self.tn[obj_property.attrib["RefId"]]
             elif obj_property.tag == "Props":
                 for adapted_property in obj_property:
-                    key = adapted_property.attrib["N"]
+                    key = self._deserialize_string(adapted_property.attrib["N"])
                     value = self.deserialize(adapted_property, clear=False)
                     obj.adapted_properties[key] = value
             elif obj_property.tag == "MS":
                 for extended_property in obj_property:
-                    key = extended_property.attrib["N"]
+                    key = self._deserialize_string(extended_property.attrib["N"])
                     value = self.deserialize(extended_property, clear=False)
                     obj.extended_properties[key] = value
             elif obj_property.tag == "ToString":
@@ -802,7 +802,7 @@ class Serializer(object):
         self,
         element: ET.Element,
     ) -> typing.List[str]:
-        obj_types = [e.text or "" for e in element.findall("TN/T")]
+        obj_types = [self._deserialize_string(e.text) for e in element.findall("TN/T")]
 
         if len(obj_types) > 0:
             ref_id = element.find("TN").attrib["RefId"]  # type: ignore[union-attr] # Mandated by the spec
@@ -830,7 +830,7 @@ class Serializer(object):
 
             tn = ET.SubElement(parent, "TN", RefId=str(ref_id))
             for type_name in types:
-                ET.SubElement(tn, "T").text = type_name
+                ET.SubElement(tn, "T").text = self._serialize_string(type_name)
         else:
             ET.SubElement(parent, "TNRef", RefId=str(ref_id))
 
@@ -846,7 +846,7 @@ class Serializer(object):
                 if value == obj:
                     sub_element = ET.SubElement(parent, "Ref", RefId=ref)
                     if key is not None:
-                        sub_element.attrib["N"] = key
+                        sub_element.attrib["N"] = self._serialize_string(key) or ""
                     return
 
         if meta is None:
-- 
2.43.0


From 8ab245dbaebe13b943b95ec5bfc1c76d9908318b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:41 +0000
Subject: [PATCH 07/53] fix: serialize infinities and NaN the way XML names
 them

---
 src/pypsrp/serializer.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 7870a66..8ab29f1 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -123,8 +123,8 @@ class Serializer(object):
             "I32": lambda m, d: str(d),
             "U64": lambda m, d: str(d),
             "I64": lambda m, d: str(d),
-            "Sg": lambda m, d: str(d),
-            "Db": lambda m, d: str(d),
+            "Sg": lambda m, d: self._serialize_float(d),
+            "Db": lambda m, d: self._serialize_float(d),
             "D": lambda m, d: str(d),
             "BA": lambda m, d: to_string(base64.b64encode(d)),
             "G": lambda m, d: str(d),
@@ -586,6 +586,14 @@ class Serializer(object):
 
         return string_value
 
+    def _serialize_float(
+        self,
+        value: typing.Any,
+    ) -> str:
+        # XML has its own names for the values that aren't a number
+        float_value = str(value)
+        return {"inf": "INF", "-inf": "-INF", "nan": "NaN"}.get(float_value, float_value)
+
     def _serialize_secure_string(
         self,
         value: str,
-- 
2.43.0


From a848e81554d1349aaa416fff5d4c6e3edb47785d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:24:53 +0000
Subject: [PATCH 08/53] fix: serialize an int that is too large for I32 as I64

---
 src/pypsrp/serializer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 8ab29f1..6a1807d 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -376,7 +376,7 @@ class Serializer(object):
 
         value_type = type(value)
         if value_type == int:
-            return "I32"
+            return "I32" if -(2**31) <= value < 2**31 else "I64"
         elif value_type == bool:
             return "B"
         elif value_type == float:
-- 
2.43.0


From 8706464c051ab14b71a52ae1b5e4d373e82b69fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:25:05 +0000
Subject: [PATCH 09/53] fix: serialize queues and stacks without draining them
 or tagging all entries as the first one

---
 src/pypsrp/serializer.py | 22 +++++++++-------------
 1 file changed, 9 insertions(+), 13 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 6a1807d..1ecfb04 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -9,7 +9,7 @@ import typing
 import uuid
 import xml.etree.ElementTree as ET
 from copy import copy
-from queue import Empty, Queue
+from queue import Queue
 
 from cryptography.hazmat.primitives.padding import PKCS7
 
@@ -480,12 +480,9 @@ class Serializer(object):
         self._create_tn(obj, metadata.list_types)
 
         que = ET.SubElement(obj, "QUE")
-        while True:
-            try:
-                value = values.get(block=False)
-                self.serialize(value, metadata.list_value_meta, parent=que, clear=False)
-            except Empty:
-                break
+        for value in list(values.queue):
+            entry_meta = copy(metadata.list_value_meta)
+            self.serialize(value, entry_meta, parent=que, clear=False)
 
         return obj
 
@@ -495,15 +492,14 @@ class Serializer(object):
         values: typing.List,
     ) -> ET.Element:
         obj = ET.Element("Obj", RefId=self._get_obj_id())
+        if not isinstance(metadata, StackMeta):
+            metadata = StackMeta(name=metadata.name, optional=metadata.optional)
         self._create_tn(obj, metadata.list_types)
 
         stk = ET.SubElement(obj, "STK")
-        while True:
-            try:
-                value = values.pop()
-                self.serialize(value, metadata.list_value_meta, parent=stk, clear=False)
-            except IndexError:
-                break
+        for value in reversed(values):
+            entry_meta = copy(metadata.list_value_meta)
+            self.serialize(value, entry_meta, parent=stk, clear=False)
 
         return obj
 
-- 
2.43.0


From fc36f4d1a2bec5082de50bb78826ceede0aa6b12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:27 +0000
Subject: [PATCH 10/53] fix: deserialize the entries of object lists by their
 own type

---
 src/pypsrp/serializer.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 1ecfb04..2d91a59 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -332,10 +332,15 @@ class Serializer(object):
                     break
 
                 obj_meta = structures.get(obj_type)
-                if obj_meta is not None:
+                if is_list:
+                    # an entry can be of any type derived from the type of the list, only
+                    # a specific type says how the entries are deserialized
+                    if obj_meta is not None and obj_meta.tag == "ObjDynamic":
+                        obj_meta = None
+                    metadata = ListMeta(list_value_meta=obj_meta)
+                    break
+                elif obj_meta is not None:
                     metadata = obj_meta
-                    if is_list:
-                        metadata = ListMeta(list_value_meta=metadata)
                     break
 
         # we were unable to find the complex object type so just return the
-- 
2.43.0


From 0015709d37b650e8f558e7f8a533fd9bc987dd3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:42:38 +0000
Subject: [PATCH 11/53] fix: deserialize containers that refer to themselves

---
 src/pypsrp/serializer.py | 22 +++++++++++++++++++---
 1 file changed, 19 insertions(+), 3 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 2d91a59..addcf65 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -713,7 +713,9 @@ class Serializer(object):
     ) -> typing.List:
         value_meta = getattr(metadata, "list_value_meta", None)
 
-        list_value = list(self._deserialize_list_values(element, "LST", value_meta=value_meta))
+        list_value: typing.List = []
+        self._store_obj(element, list_value)
+        list_value.extend(self._deserialize_list_values(element, "LST", value_meta=value_meta))
 
         return list_value
 
@@ -722,6 +724,7 @@ class Serializer(object):
         element: ET.Element,
     ) -> Queue:
         queue: Queue = Queue()
+        self._store_obj(element, queue)
 
         for entry in self._deserialize_list_values(element, "QUE"):
             queue.put(entry)
@@ -733,7 +736,9 @@ class Serializer(object):
         element: ET.Element,
     ) -> typing.List:
         # no native Stack object in Python so just use a list
-        stack = list(self._deserialize_list_values(element, "STK"))
+        stack: typing.List = []
+        self._store_obj(element, stack)
+        stack.extend(self._deserialize_list_values(element, "STK"))
 
         return stack
 
@@ -755,7 +760,8 @@ class Serializer(object):
         self,
         element: ET.Element,
     ) -> typing.Dict:
-        dictionary = {}
+        dictionary: typing.Dict = {}
+        self._store_obj(element, dictionary)
         entries = element.findall("DCT/En")
         for entry in entries:
             key = entry.find("*[@N='Key']")
@@ -802,6 +808,16 @@ class Serializer(object):
         self.tn = {}
         self.tn_id = 0
 
+    def _store_obj(
+        self,
+        element: ET.Element,
+        obj: typing.Any,
+    ) -> None:
+        # A value in a container can refer to that container, the reference
+        # must be known before the values are deserialized
+        if element.tag == "Obj":
+            self.obj[element.attrib["RefId"]] = obj
+
     def _get_obj_id(self) -> str:
         ref_id = str(self.obj_id)
         self.obj_id += 1
-- 
2.43.0


From 461b6394f6ee262fa042fa8b1c3bd03e8dd4877e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:02:10 +0000
Subject: [PATCH 12/53] fix: send all pipeline input and always end it

An empty generator raised StopIteration after the pipeline was created, a
generator that yields None stopped the input without END_OF_PIPELINE_INPUT,
and falsy input such as 0 or '' was sent although the pipeline was told there
is no input.
---
 src/pypsrp/powershell.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 62f1194..1ca18cb 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1229,7 +1229,7 @@ class PowerShell(object):
         if len(self.commands) == 0:
             raise InvalidPSRPOperation("Cannot invoke PowerShell without any commands being set")
 
-        no_input = input is None or not input
+        no_input = input is None
         apartment_state = apartment_state or self.runspace_pool.apartment_state
         host_info = HostInfo(host=self.runspace_pool.host)
 
@@ -1260,8 +1260,9 @@ class PowerShell(object):
                 input = input_gen(input)  # type: ignore[arg-type]
 
             log.info("Sending input to remote Pipeline")
-            next_input = next(input)
-            while next_input is not None:
+            more_input = True
+            next_input: typing.Any = next(input, [])
+            while more_input:
                 if not isinstance(next_input, list):
                     next_input = [next_input]
 
@@ -1271,7 +1272,7 @@ class PowerShell(object):
                     next_input = next(input)
                 except StopIteration:
                     input_msgs.append(EndOfPipelineInput())
-                    next_input = None
+                    more_input = False
 
                 fragments = self.runspace_pool._fragmenter.fragment_multiple(input_msgs, self.runspace_pool.id, self.id)
 
-- 
2.43.0


From e228db329d8abd6ea6ce8bf17a1638bb34655912 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:08:33 +0000
Subject: [PATCH 13/53] fix: do not mark the caller's last command when
 building a pipeline

Invoking set end_of_statement on the command object itself, so a command
added before the next invocation became a statement of its own.
---
 src/pypsrp/complex_objects.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 0390b23..551e356 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -509,8 +509,6 @@ class Pipeline(ComplexObject):
         statements = []
         current_statement = []
 
-        # set the last command to be the end of the statement
-        self.commands[-1].end_of_statement = True
         for command in self.commands:
             # need to use deepcopy as the values can be appended to multiple
             # parents and in lxml that removes it from the original parent,
@@ -520,6 +518,11 @@ class Pipeline(ComplexObject):
                 statements.append(current_statement)
                 current_statement = []
 
+        # the last command always ends its statement, this must not be stored
+        # on the command as more could be added before the next invocation
+        if current_statement:
+            statements.append(current_statement)
+
         return statements
 
 
-- 
2.43.0


From cd69f7e6b0a95d106b5d91bae55cd58eff85b2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:10:59 +0000
Subject: [PATCH 14/53] fix: honour ApartmentState.STA when invoking a pipeline

STA is 0, which was taken as not being set.
---
 src/pypsrp/powershell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 1ca18cb..a00c435 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1230,7 +1230,8 @@ class PowerShell(object):
             raise InvalidPSRPOperation("Cannot invoke PowerShell without any commands being set")
 
         no_input = input is None
-        apartment_state = apartment_state or self.runspace_pool.apartment_state
+        if apartment_state is None:
+            apartment_state = self.runspace_pool.apartment_state
         host_info = HostInfo(host=self.runspace_pool.host)
 
         pipeline = Pipeline(
-- 
2.43.0


From cc7c9ca999ea312d5fb7beb0cf7cac3f2a5f62ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:02 +0000
Subject: [PATCH 15/53] fix: name the property a repeated object is referenced
 from

An object used for two parameters or arguments of a command was sent as
a reference without the property name the second time, so the peer did
not find the value.
---
 src/pypsrp/serializer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index addcf65..f0bfa91 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -867,11 +867,12 @@ class Serializer(object):
         meta: typing.Optional[ObjectMeta] = None,
     ) -> None:
         if isinstance(obj, ComplexObject):
+            name = key if meta is None else meta.name
             for ref, value in self.obj.items():
                 if value == obj:
                     sub_element = ET.SubElement(parent, "Ref", RefId=ref)
-                    if key is not None:
-                        sub_element.attrib["N"] = self._serialize_string(key) or ""
+                    if name is not None:
+                        sub_element.attrib["N"] = self._serialize_string(name) or ""
                     return
 
         if meta is None:
-- 
2.43.0


From 1907ef56586cd2f33d81d638712a853f74ede93b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:13:10 +0000
Subject: [PATCH 16/53] fix: allow parameter values that cannot be copied

Building a pipeline deep copied the values of its commands, which fails
for a Queue.
---
 src/pypsrp/complex_objects.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 551e356..5fdc0de 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -512,8 +512,11 @@ class Pipeline(ComplexObject):
         for command in self.commands:
             # need to use deepcopy as the values can be appended to multiple
             # parents and in lxml that removes it from the original parent,
-            # whereas this will create a copy of the statement for each parent
-            current_statement.append(deepcopy(command))
+            # whereas this will create a copy of the statement for each parent.
+            # The caller's values are only read, and some like Queue cannot be
+            # copied, so these are kept as they are.
+            memo = {id(arg.value): arg.value for arg in command.args}
+            current_statement.append(deepcopy(command, memo))
             if command.end_of_statement:
                 statements.append(current_statement)
                 current_statement = []
-- 
2.43.0


From 44e90918fa79e73cc88367493d17c7686c0de3b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:18:52 +0000
Subject: [PATCH 17/53] fix: do not rename the caller's serialized element

The property name was stored on the element that was passed in, so using
it again, e.g. in a list, sent it with the name of the first use.
---
 src/pypsrp/serializer.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index f0bfa91..bcc7f72 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -92,6 +92,8 @@ class Serializer(object):
 
         if isinstance(value, ET.Element):
             if metadata is not None and metadata.name is not None:
+                # the name belongs to this use of the element only
+                value = copy(value)
                 value.attrib["N"] = self._serialize_string(metadata.name) or ""
 
             if parent is not None:
-- 
2.43.0


From eef3abbc5717794a94f7638223d4a1a7d89732a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:19 +0000
Subject: [PATCH 18/53] fix: start the key exchange when the server asks for it

The handler of the request returned the method instead of calling it.
---
 src/pypsrp/powershell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index a00c435..3b9a6e4 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -751,7 +751,7 @@ class RunspacePool(object):
             # the possible responses and so we will just ignore for now
             MessageType.SESSION_CAPABILITY: self._process_session_capability,
             MessageType.ENCRYPTED_SESSION_KEY: self._process_encrypted_session_key,
-            MessageType.PUBLIC_KEY_REQUEST: lambda m: self.exchange_keys,
+            MessageType.PUBLIC_KEY_REQUEST: lambda m: self.exchange_keys(),
             MessageType.RUNSPACEPOOL_INIT_DATA: self._process_runspacepool_init_data,
             MessageType.RUNSPACE_AVAILABILITY: self._process_runspacepool_availability,
             MessageType.RUNSPACEPOOL_STATE: self._process_runspacepool_state,
-- 
2.43.0


From be9bbf3b116c2c91281f5dc9480d97447bbe1f75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:22:45 +0000
Subject: [PATCH 19/53] fix: send all fragments when opening a Runspace Pool

Only the first fragment of the opening messages was sent, larger
application arguments were cut off.
---
 src/pypsrp/powershell.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 3b9a6e4..f757071 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -565,6 +565,10 @@ class RunspacePool(object):
         self.shell.open(options, open_content)
         self.state = RunspacePoolState.NEGOTIATION_SENT
 
+        # what did not fit in the first envelope is sent afterwards
+        for fragment in fragments:
+            self.shell.send("stdin", fragment)
+
         responses = []
         while self.state == RunspacePoolState.NEGOTIATION_SENT:
             responses.extend(self._receive())
-- 
2.43.0


From f3050adb539f799e327ec0d9ed8681df3bf5a480 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:17 +0000
Subject: [PATCH 20/53] fix: leave room for a long configuration name in the
 envelopes

The fragments were sized for a fixed resource URI, with a long
configuration name the requests exceeded the maximum envelope size.
---
 src/pypsrp/powershell.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index f757071..f4b8c30 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -175,7 +175,7 @@ class RunspacePool(object):
         self._min_runspaces = min_runspaces
         self._max_runspaces = max_runspaces
         self._serializer = Serializer()
-        self._fragmenter = Fragmenter(self.connection.max_payload_size, self._serializer)
+        self._fragmenter = Fragmenter(self._get_max_payload_size(), self._serializer)
         self._exchange_key: typing.Optional[rsa.RSAPrivateKeyWithSerialization] = None
         self._key_exchanged = False
         self._new_client = False
@@ -713,6 +713,14 @@ class RunspacePool(object):
 
         return True
 
+    def _get_max_payload_size(self) -> int:
+        # The payload size of the connection allows for the resource URI of the
+        # default configuration, a longer one takes up more of each envelope.
+        # The payload is Base64 encoded, 3 bytes of it use 4 in the envelope.
+        default_uri = "http://schemas.microsoft.com/powershell/%s" % DEFAULT_CONFIGURATION_NAME
+        extra_size = max(0, len(self.shell.resource_uri.encode("utf-8")) - len(default_uri))
+        return self.connection.max_payload_size - (extra_size + 3) // 4 * 3
+
     def _receive(
         self,
         id: typing.Optional[str] = None,
@@ -847,7 +855,7 @@ class RunspacePool(object):
         # default, update the envelope size to 500KiB
         if version_equal_or_newer(msg.protocol_version or "", "2.2") and self.connection.max_envelope_size == 153600:
             self.connection.update_max_payload_size(512000)
-            self._fragmenter.max_size = self.connection.max_payload_size
+            self._fragmenter.max_size = self._get_max_payload_size()
 
     def _process_runspacepool_init_data(
         self,
-- 
2.43.0


From 7e0d4c88f9a19a9aa3d77458af40d85aeef61148 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:24 +0000
Subject: [PATCH 21/53] fix: take the fragment header off an enlarged payload
 size

Fragments sent after the envelope size was raised were 21 bytes larger
than the payload size allows.
---
 src/pypsrp/powershell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index f4b8c30..c540864 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -855,7 +855,8 @@ class RunspacePool(object):
         # default, update the envelope size to 500KiB
         if version_equal_or_newer(msg.protocol_version or "", "2.2") and self.connection.max_envelope_size == 153600:
             self.connection.update_max_payload_size(512000)
-            self._fragmenter.max_size = self._get_max_payload_size()
+            # take away the fragment header size
+            self._fragmenter.max_size = self._get_max_payload_size() - 21
 
     def _process_runspacepool_init_data(
         self,
-- 
2.43.0


From 5274cef3aca33b7a18ffa366458e83f517bd049b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:25:33 +0000
Subject: [PATCH 22/53] fix: keep the Create request within the maximum
 envelope size

Large application arguments filled the first fragment to the size of a
Send request, but the Create one has more around it.
---
 src/pypsrp/powershell.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index c540864..bbd936f 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -555,7 +555,15 @@ class RunspacePool(object):
             application_arguments,
         )
         msgs = [session_capability, init_runspace_pool]
-        fragments = self._fragmenter.fragment_multiple(msgs, self.id)
+
+        # the Create envelope is a bit larger than the Send one the fragments
+        # are sized for
+        max_size = self._fragmenter.max_size
+        self._fragmenter.max_size -= 192
+        try:
+            fragments = self._fragmenter.fragment_multiple(msgs, self.id)
+        finally:
+            self._fragmenter.max_size = max_size
 
         open_content = ET.Element("creationXml", xmlns="http://schemas.microsoft.com/powershell")
         open_content.text = base64.b64encode(fragments.pop(0)).decode("utf-8")
-- 
2.43.0


From 2b6247942716a2fa1fa5090767606501c74660d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:28 +0000
Subject: [PATCH 23/53] fix: stop the command by the id the server gave it

---
 src/pypsrp/powershell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index bbd936f..679d990 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1534,7 +1534,7 @@ class PowerShell(object):
             raise InvalidPipelineStateError(self.state, PSInvocationState.RUNNING, "stop a running pipeline")
 
         self.state = PSInvocationState.STOPPING
-        self.runspace_pool.shell.signal(SignalCode.PS_CTRL_C, str(self.id).upper())
+        self.runspace_pool.shell.signal(SignalCode.PS_CTRL_C, self._command_id or str(self.id).upper())
         self.state = PSInvocationState.STOPPED
         self.runspace_pool.pipelines.pop(self.id, None)
 
-- 
2.43.0


From d3ea274e1245464542a089820f4b67eec7f62a5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:35 +0000
Subject: [PATCH 24/53] fix: disconnect only the pipelines that are running

---
 src/pypsrp/powershell.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 679d990..3887a7b 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -380,7 +380,8 @@ class RunspacePool(object):
         self.connection.disconnect(self.shell.resource_uri, disconnect, selector_set=selector_set)
         self.state = RunspacePoolState.DISCONNECTED
         for pipeline in self.pipelines.values():
-            pipeline.state = PSInvocationState.DISCONNECTED
+            if pipeline.state == PSInvocationState.RUNNING:
+                pipeline.state = PSInvocationState.DISCONNECTED
 
     def get_available_runspaces(self) -> int:
         """
-- 
2.43.0


From 9ec44329c01c1eb118b908006f63efe2779bfeff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:03 +0000
Subject: [PATCH 25/53] fix: process the rest of a response when a runspace
 call is refused

---
 src/pypsrp/powershell.py | 15 ++++++---------
 1 file changed, 6 insertions(+), 9 deletions(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 3887a7b..18aeabf 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -213,8 +213,6 @@ class RunspacePool(object):
             return
 
         def response_handler(response):
-            if not response:
-                raise InvalidPSRPOperation("Failed to set minimum runspaces")
             return response
 
         ci = self._ci_counter
@@ -227,8 +225,9 @@ class RunspacePool(object):
 
         while not isinstance(self.ci_table[ci], bool):
             self._receive()
+        if not self.ci_table.pop(ci):
+            raise InvalidPSRPOperation("Failed to set minimum runspaces")
         self._min_runspaces = min_runspaces
-        del self.ci_table[ci]
 
     @property
     def max_runspaces(self) -> int:
@@ -254,8 +253,6 @@ class RunspacePool(object):
             return
 
         def response_handler(response):
-            if not response:
-                raise InvalidPSRPOperation("Failed to set maximum runspaces")
             return response
 
         ci = self._ci_counter
@@ -268,8 +265,9 @@ class RunspacePool(object):
 
         while not isinstance(self.ci_table[ci], bool):
             self._receive()
+        if not self.ci_table.pop(ci):
+            raise InvalidPSRPOperation("Failed to set maximum runspaces")
         self._max_runspaces = max_runspaces
-        del self.ci_table[ci]
 
     def __enter__(self) -> "RunspacePool":
         self.open()
@@ -646,8 +644,6 @@ class RunspacePool(object):
             )
 
         def response_handler(response):
-            if not response:
-                raise InvalidPSRPOperation("Failed to reset runspace state")
             return response
 
         ci = self._ci_counter
@@ -660,7 +656,8 @@ class RunspacePool(object):
 
         while not isinstance(self.ci_table[ci], bool):
             self._receive()
-        del self.ci_table[ci]
+        if not self.ci_table.pop(ci):
+            raise InvalidPSRPOperation("Failed to reset runspace state")
 
     def serialize(
         self,
-- 
2.43.0


From b3fa040384832ad6392ffc0c8200abd635ddec2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:18 +0000
Subject: [PATCH 26/53] fix: keep the maximum when asking for the available
 runspaces

---
 src/pypsrp/powershell.py | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 18aeabf..ffecd36 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -390,7 +390,6 @@ class RunspacePool(object):
         """
 
         def response_handler(response):
-            self._max_runspaces = response
             return response
 
         ci = self._ci_counter
-- 
2.43.0


From d68f6c4b6d263665393c6a6fc0f4f980c020f445 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:27 +0000
Subject: [PATCH 27/53] fix: ignore an availability response that no call is
 waiting for

---
 src/pypsrp/powershell.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index ffecd36..ae2de7b 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -884,7 +884,11 @@ class RunspacePool(object):
 
         ci = msg.ci
         response = msg.response
-        ci_handler = self.ci_table[ci]
+        ci_handler = self.ci_table.get(ci)
+        if not callable(ci_handler):
+            log.debug("Ignoring RunspaceAvailability for the call %s which is not waiting for it" % ci)
+            return msg
+
         response = ci_handler(response)
         self.ci_table[ci] = response
         return response
-- 
2.43.0


From cfd9e403fe682ccb588672e0781c319b9795f2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:48 +0000
Subject: [PATCH 28/53] fix: read the error record of a runspace pool state

---
 src/pypsrp/messages.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/messages.py b/src/pypsrp/messages.py
index 01a1648..f0545f0 100644
--- a/src/pypsrp/messages.py
+++ b/src/pypsrp/messages.py
@@ -441,7 +441,7 @@ class RunspacePoolStateMessage(ComplexObject):
         super(RunspacePoolStateMessage, self).__init__()
         self._extended_properties = (
             ("state", ObjectMeta("I32", name="RunspaceState")),
-            ("error_record", ObjectMeta("Obj", optional=True, object=ErrorRecord)),
+            ("error_record", ObjectMeta("Obj", name="ExceptionAsErrorRecord", optional=True, object=ErrorRecord)),
         )
         self.state = state
         self.error_record = error_record
-- 
2.43.0


From 2e6fbf39d124cc017fd9b101f8bfb730da612f8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:40:26 +0000
Subject: [PATCH 29/53] fix: connect to the command by the id the server gave
 it

---
 src/pypsrp/powershell.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index ae2de7b..d3d54bc 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1179,7 +1179,7 @@ class PowerShell(object):
             )
         rsp = NAMESPACES["rsp"]
 
-        connect = ET.Element("{%s}Connect" % rsp, CommandId=self.id)
+        connect = ET.Element("{%s}Connect" % rsp, CommandId=self._command_id or self.id)
 
         self.runspace_pool.connection.connect(
             self.runspace_pool.shell.resource_uri, connect, selector_set=self.runspace_pool.shell._selector_set
-- 
2.43.0


From 80853a01ea20a8329b30febc0a4d7c550fb8fbb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:54:27 +0000
Subject: [PATCH 30/53] fix: store the language tag of CultureInfo under the
 name it is sent by

---
 src/pypsrp/complex_objects.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/complex_objects.py b/src/pypsrp/complex_objects.py
index 5fdc0de..98155fc 100644
--- a/src/pypsrp/complex_objects.py
+++ b/src/pypsrp/complex_objects.py
@@ -1620,7 +1620,7 @@ class CultureInfo(ComplexObject):
         self.lcid = kwargs.get("lcid")
         self.name = kwargs.get("name")
         self.display_name = kwargs.get("display_name")
-        self.ieft_language_tag = kwargs.get("ietf_language_tag")
+        self.ietf_language_tag = kwargs.get("ietf_language_tag")
         self.three_letter_iso_name = kwargs.get("three_letter_iso_name")
         self.three_letter_windows_name = kwargs.get("three_letter_windows_name")
         self.two_letter_iso_language_name = kwargs.get("two_letter_iso_language_name")
-- 
2.43.0


From 1c0064e71d85c5b5c4852fd27e4ef87e58ef6b97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:00:25 +0000
Subject: [PATCH 31/53] fix: raise the transport error for an error response
 that is XML but no SOAP fault

---
 src/pypsrp/wsman.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 0903ce9..f190279 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -499,15 +499,21 @@ class WSMan(object):
         except WinRMTransportError as err:
             try:
                 # try and parse the XML and get the WSManFault
-                raise self._parse_wsman_fault(err.response_text)
+                fault_xml = ET.fromstring(err.response_text)
+                is_fault = fault_xml.find("s:Body/s:Fault", namespaces=NAMESPACES) is not None
             except ET.ParseError:
-                # no XML message is present so not a WSManFault error
+                is_fault = False
+
+            if not is_fault:
+                # no SOAP fault is present so not a WSManFault error
                 log.error(
                     "Failed to parse WSManFault message on WinRM error"
                     " response, raising original WinRMTransportError"
                 )
                 raise err
 
+            raise self._parse_wsman_fault(err.response_text)
+
         response_xml = ET.fromstring(response)
         relates_to_et = response_xml.find("s:Header/wsa:RelatesTo", namespaces=NAMESPACES)
         relates_to = relates_to_et.text if relates_to_et is not None else ""
-- 
2.43.0


From 33758506409998dce5b22b8596cdf5f7471ff369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:01:04 +0000
Subject: [PATCH 32/53] fix: keep the reason of a fault whose message holds
 only white space and a provider fault

---
 src/pypsrp/wsman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index f190279..34d7e2a 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -660,7 +660,7 @@ class WSMan(object):
             if message_info is not None:
                 # message may still not be set, fall back to the existing
                 # reason value from the base soap Fault element
-                reason = message_info.text or reason
+                reason = (message_info.text or "").strip() or reason
 
             provider_info = wsman_fault.find("wsmanfault:Message/wsmanfault:ProviderFault", namespaces=NAMESPACES)
             if provider_info is not None:
-- 
2.43.0


From 8f35dd3a767d54a94ea3f2355609f6bff9e2b1be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:12:49 +0000
Subject: [PATCH 33/53] fix: keep carriage returns in the text of WSMan
 requests

---
 src/pypsrp/wsman.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 34d7e2a..deb8519 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -489,6 +489,9 @@ class WSMan(object):
             body.append(resource)
 
         xml = ET.tostring(envelope, encoding="utf-8", method="xml")
+        # ElementTree writes a carriage return in element text as is which the
+        # server's XML parser normalises to a newline.
+        xml = xml.replace(b"\r", b"&#13;")
 
         try:
             response = self.transport.send(
-- 
2.43.0


From f5c14201a1da156ce9b616e7b46952a6c8ea498a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:19:27 +0000
Subject: [PATCH 34/53] fix: authenticate again and encrypt for the new context
 when an encrypted connection was lost

---
 src/pypsrp/wsman.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index deb8519..275be7a 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -843,6 +843,7 @@ class _TransportHTTP(object):
         while True:
             # need to send an initial blank message to setup the security
             # context required for encryption
+            existing_context = bool(self.encryption)
             if self.wrap_required and not self.encryption:
                 request = requests.Request("POST", self.endpoint, data=None)
                 prep_request = self.session.prepare_request(request)
@@ -890,11 +891,22 @@ class _TransportHTTP(object):
 
             request = requests.Request("POST", self.endpoint, data=payload, headers=headers)
             prep_request = self.session.prepare_request(request)
+            if self.wrap_required:
+                # The payload cannot be sent again as is when the server asks
+                # for authentication as it is encrypted for the old context.
+                prep_request.deregister_hook("response", self.session.auth.response_hook)  # type: ignore[union-attr] # This should not happen
             try:
                 return self._send_request(
                     prep_request,
                     timeout=timeout,
                 )
+            except AuthenticationError:
+                if not self.wrap_required or not existing_context:
+                    raise
+
+                # The connection that was authenticated is gone, authenticate
+                # again and encrypt the message for the new context.
+                self.encryption = None
             except (requests.ReadTimeout, requests.ConnectTimeout) as e:
                 log.exception("%s during WSMan request - attempt %d", type(e).__name__, attempt)
                 if attempt == retries_on_read_timeout:
-- 
2.43.0


From e016e40b2565a03101d2dfd1089a4c561c08eaf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:20:23 +0000
Subject: [PATCH 35/53] fix: do not take encrypted bytes of a reply for MIME
 boundaries or headers

---
 src/pypsrp/encryption.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/src/pypsrp/encryption.py b/src/pypsrp/encryption.py
index 1442a0a..061d550 100644
--- a/src/pypsrp/encryption.py
+++ b/src/pypsrp/encryption.py
@@ -43,21 +43,30 @@ class WinRMEncryption(object):
         log.debug("Unwrapped message")
 
         # Talking to Exchange endpoints gives a non-compliant boundary that has a space between the -- {boundary}, not
-        # ideal but we just need to handle it.
-        parts = re.compile(to_bytes(r"--\s*%s\r\n" % re.escape(boundary))).split(message)
-        parts = list(filter(None, parts))
+        # ideal but we just need to handle it. The whole MIME header of each part is matched as the encrypted data that
+        # follows it can contain any byte sequence, including ones that look like a boundary.
+        delimiter = to_bytes(r"--\s*%s" % re.escape(boundary))
+        part_header = re.compile(
+            delimiter
+            + rb"\r\n(?P<header>\s*Content-Type:[^\r\n]*\r\n\s*OriginalContent:[^\r\n]*)\r\n"
+            + delimiter
+            + rb"\r\n\tContent-Type: application/octet-stream\r\n"
+        )
 
-        message = b""
-        for i in range(0, len(parts), 2):
-            header = parts[i].strip()
-            payload = parts[i + 1]
+        # remove the end MIME block if it exists
+        message = re.sub(delimiter + rb"(--)?\r\n\Z", b"", message)
 
-            expected_length = int(header.split(b"Length=")[1])
+        parts = list(part_header.finditer(message))
+        if not parts or parts[0].start() != 0:
+            raise WinRMError("The encrypted message from the server is not in the expected format")
 
-            # remove the end MIME block if it exists
-            payload = re.sub(to_bytes(r"--\s*%s--\r\n$") % to_bytes(boundary), b"", payload)
+        data_ends = [part.start() for part in parts[1:]] + [len(message)]
+        encrypted_message = message
+        message = b""
+        for part, data_end in zip(parts, data_ends):
+            expected_length = int(part.group("header").split(b"Length=")[1])
 
-            wrapped_data = payload.replace(b"\tContent-Type: application/octet-stream\r\n", b"")
+            wrapped_data = encrypted_message[part.end() : data_end]
             header_length = struct.unpack("<i", wrapped_data[:4])[0]
             header = wrapped_data[4 : 4 + header_length]
             enc_wrapped_data = wrapped_data[4 + header_length :]
-- 
2.43.0


From ff7bdc6893c82a32a186002c25926c6f6050d458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:47:53 +0000
Subject: [PATCH 36/53] fix: fail a fetch whose temporary file could not take
 all bytes

---
 src/pypsrp/client.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/client.py b/src/pypsrp/client.py
index 273c56e..d2d670a 100644
--- a/src/pypsrp/client.py
+++ b/src/pypsrp/client.py
@@ -273,7 +273,10 @@ class Client(object):
             temp_file, path = tempfile.mkstemp()
             try:
                 file_bytes = base64.b64decode(powershell.output[0])
-                os.write(temp_file, file_bytes)
+                # A single write may store only some of the bytes, e.g. when the disk is almost full.
+                remaining = memoryview(file_bytes)
+                while remaining:
+                    remaining = remaining[os.write(temp_file, remaining) :]
 
                 sha1 = hashlib.sha1()
                 sha1.update(file_bytes)
-- 
2.43.0


From 37f63a58424a3c3c1d6fd774df2fda1738c6d76f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:53:15 +0000
Subject: [PATCH 37/53] fix: decode each error string of CLIXML on its own

---
 src/pypsrp/client.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pypsrp/client.py b/src/pypsrp/client.py
index d2d670a..c95cfce 100644
--- a/src/pypsrp/client.py
+++ b/src/pypsrp/client.py
@@ -315,11 +315,13 @@ class Client(object):
             element = ET.fromstring(output)
             namespace = element.tag.replace("Objs", "")[1:-1]
 
+            # Each string is escaped on its own, the end of one and the start of the next do not form an escape.
+            serializer = Serializer()
             errors: typing.List[str] = []
             for error in element.findall("{%s}S[@S='Error']" % namespace):
-                errors.append(error.text or "")
+                errors.append(serializer._deserialize_string(error.text or ""))
 
-            output = Serializer()._deserialize_string("".join(errors))
+            output = "".join(errors)
 
         return output
 
-- 
2.43.0


From 2b3c194cd081a28857622786a6db0464a938af84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:58:32 +0000
Subject: [PATCH 38/53] fix: discover runspace pools under the configuration
 they were created with

---
 src/pypsrp/powershell.py | 13 ++++++++++++-
 1 file changed, 12 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index d3d54bc..310fd3d 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -488,7 +488,18 @@ class RunspacePool(object):
         runspace_pools = []
         for shell in shells:
             shell_id: str = shell.find("rsp:ShellId", NAMESPACES).text  # type: ignore # Mandated by spec
-            pool = RunspacePool(connection)
+
+            # the pool is only reachable under the resource URI of its configuration, shells of any other kind, like
+            # WinRS ones, are not Runspace Pools
+            configuration_name = DEFAULT_CONFIGURATION_NAME
+            resource_uri = shell.findtext("rsp:ResourceUri", namespaces=NAMESPACES)
+            if resource_uri:
+                prefix = "http://schemas.microsoft.com/powershell/"
+                if not resource_uri.startswith(prefix):
+                    continue
+                configuration_name = resource_uri[len(prefix) :]
+
+            pool = RunspacePool(connection, configuration_name=configuration_name)
             pool.id = shell_id
             pool.shell.id = shell_id
             pool.shell.opened = True
-- 
2.43.0


From 2f2d0fd327672667b4601182be582ad3d63f965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:58:43 +0000
Subject: [PATCH 39/53] fix: address a discovered runspace pool by its id
 before it is connected

---
 src/pypsrp/powershell.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 310fd3d..98ebbf9 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -502,6 +502,8 @@ class RunspacePool(object):
             pool = RunspacePool(connection, configuration_name=configuration_name)
             pool.id = shell_id
             pool.shell.id = shell_id
+            pool.shell._selector_set = SelectorSet()
+            pool.shell._selector_set.add_option("ShellId", shell_id)
             pool.shell.opened = True
             pool._new_client = True
 
-- 
2.43.0


From 4e3b3f964b98faf28b68a7224d361edc3c19d60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:03:39 +0000
Subject: [PATCH 40/53] fix: connect to a runspace pool although the server
 answers later

---
 src/pypsrp/powershell.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 98ebbf9..1fdd0bc 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -348,7 +348,10 @@ class RunspacePool(object):
         self._parse_responses(fragments)
         self.shell.id = self.id  # need to sync up the ShellID with the rs ID
         self.shell._selector_set = selectors
-        self._receive()
+
+        # the server may send nothing or only a part of its answer with the first response
+        while self.state == RunspacePoolState.DISCONNECTED and self._application_private_data is None:
+            self._receive()
 
     def create_disconnected_power_shells(self) -> typing.List["PowerShell"]:
         """
-- 
2.43.0


From 9b7519332f9483d216a0841bb9f090fd93a600ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:13:33 +0000
Subject: [PATCH 41/53] fix: do not open connections to a proxy while new
 connections are disabled

---
 src/pypsrp/_pool_manager.py | 38 +++++++++++++++++++++++++++----------
 1 file changed, 28 insertions(+), 10 deletions(-)

diff --git a/src/pypsrp/_pool_manager.py b/src/pypsrp/_pool_manager.py
index 81c7516..4d70292 100644
--- a/src/pypsrp/_pool_manager.py
+++ b/src/pypsrp/_pool_manager.py
@@ -116,6 +116,19 @@ def _create_connection_pool(pool):
     pool.ConnectionCls = _wrap(pool.ConnectionCls, after=_create_new_connection_with_failure)
 
 
+def _wrap_pool_classes(manager):
+    # pool_classes_by_scheme stores the urllib3 pool types used when creating
+    # the connection pool for http/https. We wrap the __init__ method so we can
+    # inject our custom ConnectionCls that wraps the connect method when
+    # created.
+    # Copy the dict so we only mutate this adapter's instance, not the
+    # module-level dict shared by all urllib3 PoolManager instances.
+    pool_classes = dict(manager.pool_classes_by_scheme)
+    for scheme, pool_cls in list(pool_classes.items()):
+        pool_classes[scheme] = _wrap(pool_cls, after=_create_connection_pool)
+    manager.pool_classes_by_scheme = pool_classes
+
+
 def create_request_adapter(  # type: ignore[no-any-unimported]  # requests does not have typing stubs for urllib3
     *,
     max_retries: Retry,
@@ -131,15 +144,20 @@ def create_request_adapter(  # type: ignore[no-any-unimported]  # requests does
     else:
         adapter = requests.adapters.HTTPAdapter(max_retries=max_retries)
 
-    # pool_classes_by_scheme stores the urllib3 pool types used when creating
-    # the connection pool for http/https. We wrap the __init__ method so we can
-    # inject our custom ConnectionCls that wraps the connect method when
-    # created.
-    # Copy the dict so we only mutate this adapter's instance, not the
-    # module-level dict shared by all urllib3 PoolManager instances.
-    pool_classes = dict(adapter.poolmanager.pool_classes_by_scheme)
-    for scheme, pool_cls in list(pool_classes.items()):
-        pool_classes[scheme] = _wrap(pool_cls, after=_create_connection_pool)
-    adapter.poolmanager.pool_classes_by_scheme = pool_classes
+    _wrap_pool_classes(adapter.poolmanager)
+
+    # Connections through a proxy come from a pool manager of that proxy which
+    # the adapter creates when it is first used.
+    proxy_manager_for = adapter.proxy_manager_for
+
+    def wrapped_proxy_manager_for(proxy: str, **kwargs: t.Any) -> t.Any:
+        is_new = proxy not in adapter.proxy_manager
+        manager = proxy_manager_for(proxy, **kwargs)
+        if is_new:
+            _wrap_pool_classes(manager)
+
+        return manager
+
+    adapter.proxy_manager_for = wrapped_proxy_manager_for
 
     return adapter
-- 
2.43.0


From 8f46d19afaadd75284b01d24cdaa22217abd4e7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:13:42 +0000
Subject: [PATCH 42/53] fix: treat a pool as dead when the check for it times
 out while reading

---
 src/pypsrp/powershell.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 1fdd0bc..071884d 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -723,7 +723,13 @@ class RunspacePool(object):
             else:
                 raise
 
-        except (_pool_manager.NewConnectionDisabled, TimeoutError, requests.exceptions.ConnectionError):
+        except (
+            _pool_manager.NewConnectionDisabled,
+            TimeoutError,
+            requests.exceptions.Timeout,
+            requests.exceptions.ConnectionError,
+            requests.exceptions.ChunkedEncodingError,  # connection lost during the response
+        ):
             # If a timeout or connection error occurs, treat the pool as closed.
             is_closed = True
 
-- 
2.43.0


From 6beb940dad70598ee142730ca09c36d59d4d1acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:35:32 +0000
Subject: [PATCH 43/53] fix: use NTLM when it is offered next to Kerberos and
 auth is ntlm

---
 src/pypsrp/negotiate.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/negotiate.py b/src/pypsrp/negotiate.py
index 784226a..3b9a429 100644
--- a/src/pypsrp/negotiate.py
+++ b/src/pypsrp/negotiate.py
@@ -89,7 +89,11 @@ class HTTPNegotiateAuth(AuthBase):
 
     def response_hook(self, response, **kwargs):
         if response.status_code == 401:
-            matched_provider = self._check_auth_supported(response, ["Negotiate", "Kerberos", "NTLM"])
+            providers = ["Negotiate", "Kerberos", "NTLM"]
+            if self.auth_provider == "ntlm":
+                # Kerberos cannot be used, only fail on it if nothing else is offered.
+                providers = ["Negotiate", "NTLM", "Kerberos"]
+            matched_provider = self._check_auth_supported(response, providers)
             kwargs["_pypsrp_auth_provider"] = matched_provider
 
             response = self.handle_401(response, **kwargs)
-- 
2.43.0


From 17550d7a0f8d625297f817fc5279d78e50d6edd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:35:49 +0000
Subject: [PATCH 44/53] fix: encrypt messages for servers with an
 internationalized hostname

---
 src/pypsrp/wsman.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 275be7a..52c061a 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -835,7 +835,6 @@ class _TransportHTTP(object):
         retries_on_read_timeout: int = 0,
         timeout: int | float | tuple[int | float, int | float] | None = None,
     ) -> bytes:
-        hostname = get_hostname(self.endpoint)
         if self.session is None:
             self.session = self._build_session()
 
@@ -848,6 +847,10 @@ class _TransportHTTP(object):
                 request = requests.Request("POST", self.endpoint, data=None)
                 prep_request = self.session.prepare_request(request)
 
+                # The auth context is stored under the hostname of the request which is in its IDNA form and may not be
+                # the one that was specified by the caller.
+                hostname = get_hostname(prep_request.url)
+
                 try:
                     self._send_request(prep_request, timeout=timeout)
                 except (requests.ReadTimeout, requests.ConnectTimeout) as e:
-- 
2.43.0


From 7add01abca479610a7c6260ba7fe2e2b21651d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 10:48:43 +0000
Subject: [PATCH 45/53] fix: read the boundary of an encrypted reply wherever
 it is in the content type

---
 src/pypsrp/wsman.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 52c061a..13212dc 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -934,7 +934,7 @@ class _TransportHTTP(object):
 
         content_type = response.headers.get("content-type", "")
         if content_type.startswith("multipart/encrypted;") or content_type.startswith("multipart/x-multi-encrypted;"):
-            boundary = re.search("boundary=[" '|\\"](.*)[' '|\\"]', response.headers["content-type"]).group(1)  # type: ignore[union-attr] # This should not happen
+            boundary = re.search(r'boundary="?([^";]+)', response.headers["content-type"]).group(1)  # type: ignore[union-attr] # This should not happen
             response_content = self.encryption.unwrap_message(response.content, to_unicode(boundary))  # type: ignore[union-attr] # This should not happen
             response_text = to_string(response_content)
         else:
-- 
2.43.0


From 804d90d54f28357ab5bbefd96d24da05cc738b6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:00:12 +0000
Subject: [PATCH 46/53] fix: use the password of the client certificate key
 with a proxy

---
 src/pypsrp/_pool_manager.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/src/pypsrp/_pool_manager.py b/src/pypsrp/_pool_manager.py
index 4d70292..29b2c9b 100644
--- a/src/pypsrp/_pool_manager.py
+++ b/src/pypsrp/_pool_manager.py
@@ -76,6 +76,13 @@ class HTTPSAdapterWithKeyPassword(requests.adapters.HTTPAdapter):
             **pool_kwargs,
         )
 
+    def proxy_manager_for(self, proxy, **proxy_kwargs):
+        return super().proxy_manager_for(
+            proxy,
+            key_password=self.__key_password,
+            **proxy_kwargs,
+        )
+
 
 def _wrap(
     func: t.Callable[..., T],
-- 
2.43.0


From aedc4552defbd7e3dd200dcdf13a2d0c7e2ea969 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 11:00:24 +0000
Subject: [PATCH 47/53] fix: do not send netrc credentials with certificate
 auth

---
 src/pypsrp/wsman.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 13212dc..5bd693b 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -1059,6 +1059,10 @@ class _TransportHTTP(object):
         session.cert = (self.certificate_pem, self.certificate_key_pem)
         session.headers["Authorization"] = "http://schemas.dmtf.org/wbem/wsman/1/wsman/secprofile/https/mutual"
 
+        # The environment's proxy and CA settings have been merged into the session. As there is no session auth, requests
+        # would now replace the Authorization header with the credentials for the host in a netrc file.
+        session.trust_env = False
+
     def _build_auth_credssp(self, session: requests.Session) -> None:
         if self.username is None:
             raise ValueError("For credssp auth, the username must be specified")
-- 
2.43.0


From 3674aa5f6213c4d9906fa49b01d4304310171f08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 12:19:06 +0000
Subject: [PATCH 48/53] fix: an input object changed by the generator after it
 was yielded was sent with its later content

---
 src/pypsrp/powershell.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/powershell.py b/src/pypsrp/powershell.py
index 071884d..0a30a83 100644
--- a/src/pypsrp/powershell.py
+++ b/src/pypsrp/powershell.py
@@ -1311,7 +1311,11 @@ class PowerShell(object):
                 if not isinstance(next_input, list):
                     next_input = [next_input]
 
-                input_msgs: typing.List[ComplexObject] = [PipelineInput(data=d) for d in next_input]
+                # serialize now, getting the next input may change the objects
+                # of this one
+                input_msgs: typing.List[ComplexObject] = [
+                    PipelineInput(data=self.runspace_pool.serialize(d)) for d in next_input
+                ]
 
                 try:
                     next_input = next(input)
-- 
2.43.0


From e082ce89c829e67ba662e9595b551e8fa502f3d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:41:43 +0000
Subject: [PATCH 49/53] fix: References to types and objects in members that
 are skipped or in another order

A Ref or TNRef in a message raised a KeyError when the object or the types it
refers to were first seen in a member the structured object has no attribute
for, or in one the metadata lists later than the XML does, like an array in
InvocationInfo_UnboundArguments with the type of
InvocationInfo_PipelineIterationInfo.
---
 src/pypsrp/serializer.py | 39 +++++++++++++++++++++++++++++++++++----
 1 file changed, 35 insertions(+), 4 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index bcc7f72..d112516 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -58,6 +58,7 @@ class Serializer(object):
         self.obj: typing.Dict = {}
         self.tn_id = 0
         self.tn: typing.Dict = {}
+        self._obj_elements: typing.Dict[str, ET.Element] = {}
 
         self.cipher: typing.Any = None
         # Finds C0, C1, surrogates and the other chars that cannot be in an XML
@@ -186,6 +187,18 @@ class Serializer(object):
             xml_string = ET.tostring(element, encoding="utf-8", method="xml")
             element_string = to_string(xml_string)
 
+        if clear:
+            # not every element of a message is deserialized, the types and
+            # objects they define can still be referenced by the ones that are
+            for tn in element.iter("TN"):
+                self.tn[tn.attrib["RefId"]] = [self._deserialize_string(e.text) for e in tn.findall("T")]
+            self._obj_elements = {e.attrib["RefId"]: e for e in element.iter("Obj") if "RefId" in e.attrib}
+        elif element.tag == "Obj":
+            ref_id = element.attrib["RefId"]
+            if ref_id in self.obj and ref_id not in self._obj_elements:
+                # part of an object that was skipped, it has been referenced before
+                return self.obj[ref_id]
+
         metadata = metadata or ObjectMeta()
         if metadata.tag == "*":
             metadata.tag = element.tag
@@ -222,7 +235,7 @@ class Serializer(object):
             "SBK": lambda d: self._deserialize_string(d.text),
             "SS": lambda d: self._deserialize_secure_string(d),
             # references an object already deserialized
-            "Ref": lambda d: self.obj[d.attrib["RefId"]],
+            "Ref": lambda d: self._deserialize_ref(d),
         }.get(element.tag)
 
         if unpack_function is not None:
@@ -633,6 +646,7 @@ class Serializer(object):
             obj._to_string = self._deserialize_string(to_string_value.text)
 
         def deserialize_property(prop_tag: str, properties: typing.Tuple[typing.Tuple[str, ObjectMeta], ...]) -> None:
+            found = []
             for attr, property_meta in properties:
                 if attr == "invocation_info":
                     a = ""
@@ -663,10 +677,17 @@ class Serializer(object):
                         )
                         raise SerializationError(err_msg)
                     val = None
-                elif val is not None:
-                    val = self.deserialize(val, property_meta, clear=False)
 
-                setattr(obj, attr, val)
+                if val is None:
+                    setattr(obj, attr, None)
+                else:
+                    found.append((val, attr, property_meta))
+
+            # go by the order in the XML, a value can refer to objects in any
+            # of the values before it
+            order = element.findall("%s*" % prop_tag)
+            for val, attr, property_meta in sorted(found, key=lambda f: order.index(f[0])):
+                setattr(obj, attr, self.deserialize(val, property_meta, clear=False))
 
         deserialize_property("", obj._property_sets)
         deserialize_property("Props/", obj._adapted_properties)
@@ -674,6 +695,16 @@ class Serializer(object):
 
         return obj
 
+    def _deserialize_ref(
+        self,
+        element: ET.Element,
+    ) -> typing.Any:
+        ref_id = element.attrib["RefId"]
+        if ref_id not in self.obj and ref_id in self._obj_elements:
+            self.deserialize(self._obj_elements.pop(ref_id), clear=False)
+
+        return self.obj[ref_id]
+
     def _deserialize_dynamic_obj(
         self,
         element: ET.Element,
-- 
2.43.0


From b8160b1e88e446c5ec07865f18ff402416f67eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 13:50:36 +0000
Subject: [PATCH 50/53] fix: A WinRS shell that is opened again sent an invalid
 idle time-out

The attribute holds the duration the host answered with, like PT7200.000S,
which was sent as PTPT7200.000SS when the shell was opened again.
---
 src/pypsrp/shell.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/shell.py b/src/pypsrp/shell.py
index a8f446e..e8a9bc2 100644
--- a/src/pypsrp/shell.py
+++ b/src/pypsrp/shell.py
@@ -182,7 +182,12 @@ class WinRS(object):
                 ET.SubElement(env, "{%s}Variable" % rsp, Name=str(key)).text = str(value)
 
         if self.idle_time_out is not None:
-            ET.SubElement(shell, "{%s}IdleTimeOut" % rsp).text = "PT%sS" % str(self.idle_time_out)
+            # the value is already a duration if it came from the host when the
+            # shell was opened before
+            idle_time_out = str(self.idle_time_out)
+            if not idle_time_out.startswith("P"):
+                idle_time_out = "PT%sS" % idle_time_out
+            ET.SubElement(shell, "{%s}IdleTimeOut" % rsp).text = idle_time_out
 
         if self.lifetime is not None:
             ET.SubElement(shell, "{%s}Lifetime" % rsp).text = "PT%sS" % self.lifetime
-- 
2.43.0


From af04378e03bad2d7310492eb4694ebf8483abd61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:42:42 +0000
Subject: [PATCH 51/53] fix: a type description given to serialize was changed
 by the first value it was used for

---
 src/pypsrp/serializer.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index d112516..63076a8 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -102,7 +102,9 @@ class Serializer(object):
 
             return value
 
-        metadata = metadata or ObjectMeta()
+        # the tag of this value is not set on the metadata of the caller as it can
+        # be used for other values
+        metadata = copy(metadata) if metadata else ObjectMeta()
         if metadata.tag == "*":
             if isinstance(value, TaggedValue):
                 metadata.tag = value.tag
-- 
2.43.0


From 85603c3362490fe6582fd4a74109c3712f646889 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:48 +0000
Subject: [PATCH 52/53] fix: an object in a list or dictionary was sent again
 instead of as a reference, endlessly when it contains itself

---
 src/pypsrp/serializer.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/src/pypsrp/serializer.py b/src/pypsrp/serializer.py
index 63076a8..726031b 100644
--- a/src/pypsrp/serializer.py
+++ b/src/pypsrp/serializer.py
@@ -59,6 +59,7 @@ class Serializer(object):
         self.tn_id = 0
         self.tn: typing.Dict = {}
         self._obj_elements: typing.Dict[str, ET.Element] = {}
+        self._obj_refs: typing.Dict[int, str] = {}
 
         self.cipher: typing.Any = None
         # Finds C0, C1, surrogates and the other chars that cannot be in an XML
@@ -112,6 +113,10 @@ class Serializer(object):
             else:
                 metadata.tag = self._get_tag_from_value(value)
 
+        # an object that is already part of this message, a member or entry can
+        # also refer to an object it is in
+        ref_id = self._obj_refs.get(id(value))
+
         pack_function: typing.Callable[[ObjectMeta, typing.Any], ET.Element] = {  # type: ignore[assignment] # Not sure why
             # primitive types
             "S": lambda m, d: self._serialize_string(d),
@@ -153,6 +158,8 @@ class Serializer(object):
             if metadata.optional:
                 return None
             element = ET.Element("Nil")
+        elif ref_id is not None:
+            element = ET.Element("Ref", RefId=ref_id)
         else:
             element_value = pack_function(metadata, value)
             if isinstance(element_value, str):
@@ -465,6 +472,7 @@ class Serializer(object):
     ) -> ET.Element:
         obj = ET.Element("Obj", RefId=self._get_obj_id())
         self.obj[obj.attrib["RefId"]] = value
+        self._obj_refs[id(value)] = obj.attrib["RefId"]
 
         if len(value.types) > 0:
             self._create_tn(obj, value.types)
@@ -840,6 +848,7 @@ class Serializer(object):
     def _clear(self) -> None:
         self.obj_id = 0
         self.obj = {}
+        self._obj_refs = {}
         self.tn = {}
         self.tn_id = 0
 
@@ -901,15 +910,6 @@ class Serializer(object):
         key: typing.Optional[str] = None,
         meta: typing.Optional[ObjectMeta] = None,
     ) -> None:
-        if isinstance(obj, ComplexObject):
-            name = key if meta is None else meta.name
-            for ref, value in self.obj.items():
-                if value == obj:
-                    sub_element = ET.SubElement(parent, "Ref", RefId=ref)
-                    if name is not None:
-                        sub_element.attrib["N"] = self._serialize_string(name) or ""
-                    return
-
         if meta is None:
             meta = ObjectMeta(name=key)
         self.serialize(obj, metadata=meta, parent=parent, clear=False)
-- 
2.43.0


From 30025422a195fb2009ea1df30572ea01cb243447 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:00 +0000
Subject: [PATCH 53/53] fix: creating connections in several threads at once
 could fail with a KeyError

---
 src/pypsrp/wsman.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/pypsrp/wsman.py b/src/pypsrp/wsman.py
index 5bd693b..cb24316 100644
--- a/src/pypsrp/wsman.py
+++ b/src/pypsrp/wsman.py
@@ -74,6 +74,12 @@ NAMESPACES: typing.Dict[str, str] = {
     "pwsh": "http://schemas.microsoft.com/powershell",
 }
 
+# register well known namespace prefixes so ElementTree doesn't randomly
+# generate them, saving packet space. ElementTree keeps them for the whole
+# process, changing them while another thread does the same can fail.
+for _prefix, _uri in NAMESPACES.items():
+    ET.register_namespace(_prefix, _uri)
+
 
 class WSManAction(object):
     # WS-Management URIs
@@ -233,11 +239,6 @@ class WSMan(object):
         self.max_envelope_size = max_envelope_size
         self.operation_timeout = operation_timeout
 
-        # register well known namespace prefixes so ElementTree doesn't
-        # randomly generate them, saving packet space
-        for key, value in NAMESPACES.items():
-            ET.register_namespace(key, value)
-
         # This is the approx max size of a Base64 string that can be sent in a
         # SOAP message payload (PSRP fragment or send input data) to the
         # server. This value is dependent on the server's MaxEnvelopSizekb
-- 
2.43.0

