From 4814da40342cf72e74f3d7f9195383396894e170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:55 +0000
Subject: [PATCH 01/90] fix: EDIPartyName, CountryName and
 AdministrationDomainName tag their CHOICE explicitly

---
 asn1crypto/x509.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 38aa770..f595b2c 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1190,8 +1190,7 @@ class AnotherName(Sequence):
 
 
 class CountryName(Choice):
-    class_ = 1
-    tag = 1
+    explicit = (1, 1)
 
     _alternatives = [
         ('x121_dcc_code', NumericString),
@@ -1200,8 +1199,7 @@ class CountryName(Choice):
 
 
 class AdministrationDomainName(Choice):
-    class_ = 1
-    tag = 2
+    explicit = (1, 2)
 
     _alternatives = [
         ('numeric', NumericString),
@@ -1424,8 +1422,8 @@ class ORAddress(Sequence):
 
 class EDIPartyName(Sequence):
     _fields = [
-        ('name_assigner', DirectoryString, {'implicit': 0, 'optional': True}),
-        ('party_name', DirectoryString, {'implicit': 1}),
+        ('name_assigner', DirectoryString, {'explicit': 0, 'optional': True}),
+        ('party_name', DirectoryString, {'explicit': 1}),
     ]
 
 
-- 
2.43.0


From af70356c106fb18705eb475387cf9c88c5984e44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:48 +0000
Subject: [PATCH 02/90] fix: a structure built from an empty dict encodes as an
 empty structure

---
 asn1crypto/core.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index a07cd97..339640b 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3450,6 +3450,13 @@ class Sequence(Asn1Value):
                         ', '.join(sorted(list(unused_keys)))
                     ))
 
+                if self.children is None and self._contents is None:
+                    # An empty dict was passed
+                    self.children = []
+                    if self._fields:
+                        self._parse_children()
+                    self._mutated = True
+
             except (ValueError, TypeError) as e:
                 args = e.args[1:]
                 e.args = (e.args[0] + '\n    while constructing %s' % type_name(self),) + args
-- 
2.43.0


From d46fc91f25dd1d4db77530a3b5d6938d5f0021a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:29 +0000
Subject: [PATCH 03/90] fix: Any values take the explicit tag of their field
 and survive being copied, retagged and dumped unparsed

---
 asn1crypto/core.py | 60 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 55 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 339640b..fafedf9 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -903,8 +903,10 @@ class Any(Asn1Value):
                         type_name(value)
                     ))
 
-                self._parsed = (value, value.__class__, None)
-                self.contents = value.dump()
+                if self.explicit is not None and value.explicit != self.explicit:
+                    value = value.retag({'explicit': self.explicit})
+
+                self._set_parsed(value)
 
         except (ValueError, TypeError) as e:
             args = e.args[1:]
@@ -959,7 +961,7 @@ class Any(Asn1Value):
 
         if self._parsed is None or self._parsed[1:3] != (spec, spec_params):
             try:
-                passed_params = spec_params or {}
+                passed_params = dict(spec_params or {})
                 _tag_type_to_explicit_implicit(passed_params)
                 if self.explicit is not None:
                     if 'explicit' in passed_params:
@@ -977,7 +979,6 @@ class Any(Asn1Value):
                 # Once we've parsed the Any value, clear any attributes from this object
                 # since they are now duplicate
                 self.tag = None
-                self.explicit = None
                 self.implicit = False
                 self._header = b''
                 self.contents = contents
@@ -989,6 +990,51 @@ class Any(Asn1Value):
                 raise e
         return self._parsed[0]
 
+    def retag(self, tagging, tag=None):
+        """
+        Copies the object, applying a new tagging to it
+
+        :param tagging:
+            A dict containing the keys "explicit" and "implicit". Legacy
+            API allows a unicode string of "implicit" or "explicit".
+
+        :param tag:
+            A integer tag number. Only used when tagging is a unicode string.
+
+        :return:
+            An Any object
+        """
+
+        if not isinstance(tagging, dict):
+            tagging = {tagging: tag}
+        new_obj = self.__class__(explicit=tagging.get('explicit'), implicit=tagging.get('implicit'))
+        new_obj._set_parsed(self.parsed.retag(tagging))
+        return new_obj
+
+    def untag(self):
+        """
+        Copies the object, removing any special tagging from it
+
+        :return:
+            An Any object
+        """
+
+        new_obj = self.__class__()
+        new_obj._set_parsed(self.parsed.untag())
+        return new_obj
+
+    def _set_parsed(self, value):
+        """
+        Makes a (properly tagged) value the parsed value of this object
+
+        :param value:
+            An Asn1Value object
+        """
+
+        self._parsed = (value, value.__class__, None)
+        self._header = b''
+        self.contents = value.dump()
+
     def _copy(self, other, copy_func):
         """
         Copies the contents of another Any object to itself
@@ -1002,6 +1048,8 @@ class Any(Asn1Value):
         """
 
         super(Any, self)._copy(other, copy_func)
+        self._header = other._header
+        self._trailer = other._trailer
         self._parsed = copy_func(other._parsed)
 
     def dump(self, force=False):
@@ -1017,6 +1065,8 @@ class Any(Asn1Value):
         """
 
         if self._parsed is None:
+            if not force and self.contents is not None:
+                return self._header + self.contents + self._trailer
             self.parse()
 
         return self._parsed[0].dump(force=force)
@@ -3604,7 +3654,7 @@ class Sequence(Asn1Value):
 
         invalid_value = False
         if isinstance(new_value, Any):
-            invalid_value = new_value.parsed is None
+            invalid_value = new_value.contents is None
         else:
             invalid_value = new_value.contents is None
 
-- 
2.43.0


From b289232a7bea8108107add15f0c0d3720f8b1276 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:25:35 +0000
Subject: [PATCH 04/90] fix: name maps belong to their own class,
 AnyAlgorithmId included

---
 asn1crypto/algos.py |  5 +++++
 asn1crypto/core.py  | 14 +++++++++++---
 2 files changed, 16 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 3a4b18f..038c8f6 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -1319,9 +1319,14 @@ class AnyAlgorithmId(ObjectIdentifier):
 
     def _setup(self):
         _map = self.__class__._map
+        reverse_map = {}
         for other_cls in (EncryptionAlgorithmId, SignedDigestAlgorithmId, DigestAlgorithmId):
             for oid, name in other_cls._map.items():
                 _map[oid] = name
+                reverse_map[name] = oid
+        # Some of the names of signature algorithms belong to two OIDs
+        reverse_map.update(SignedDigestAlgorithmId._reverse_map)
+        self.__class__._reverse_map = reverse_map
 
 
 class AnyAlgorithmIdentifier(_ForceNullParameters, Sequence):
diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index fafedf9..73678fb 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -683,11 +683,19 @@ class ValueMap():
         """
 
         cls = self.__class__
-        if cls._map is None or cls._reverse_map is not None:
+        if cls._map is None:
             return
-        cls._reverse_map = {}
+        for base in cls.__mro__:
+            # A _reverse_map only belongs to the _map it was made for, and not
+            # to one that a subclass replaces that with
+            if base.__dict__.get('_reverse_map') is not None:
+                return
+            if base.__dict__.get('_map') is not None:
+                break
+        reverse_map = {}
         for key, value in cls._map.items():
-            cls._reverse_map[value] = key
+            reverse_map[value] = key
+        cls._reverse_map = reverse_map
 
 
 class Castable(object):
-- 
2.43.0


From da36ed746f18b36989bf2984ff7c27c80be1f7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:35:38 +0000
Subject: [PATCH 05/90] fix: a class is set up by one thread while the others
 wait

---
 asn1crypto/core.py | 27 +++++++++++++++++----------
 1 file changed, 17 insertions(+), 10 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 73678fb..82e8a67 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -55,6 +55,7 @@ import copy
 import math
 import re
 import sys
+import threading
 
 from . import _teletex_codec
 from ._errors import unwrap
@@ -111,6 +112,10 @@ _OID_RE = re.compile(r'^\d+(\.\d+)*$')
 # would just see the parent class attributes and would use them.
 _SETUP_CLASSES = {}
 
+# Held while a class is being set up, so that a thread never works with a
+# class another thread has only partially set up
+_SETUP_LOCK = threading.RLock()
+
 
 def load(encoded_data, strict=False):
     """
@@ -297,14 +302,16 @@ class Asn1Value(object):
 
         try:
             if self.__class__ not in _SETUP_CLASSES:
-                cls = self.__class__
-                # Allow explicit to be specified as a simple 2-element tuple
-                # instead of requiring the user make a nested tuple
-                if cls.explicit is not None and isinstance(cls.explicit[0], int_types):
-                    cls.explicit = (cls.explicit, )
-                if hasattr(cls, '_setup'):
-                    self._setup()
-                _SETUP_CLASSES[cls] = True
+                with _SETUP_LOCK:
+                    cls = self.__class__
+                    if cls not in _SETUP_CLASSES:
+                        # Allow explicit to be specified as a simple 2-element tuple
+                        # instead of requiring the user make a nested tuple
+                        if cls.explicit is not None and isinstance(cls.explicit[0], int_types):
+                            cls.explicit = (cls.explicit, )
+                        if hasattr(cls, '_setup'):
+                            self._setup()
+                        _SETUP_CLASSES[cls] = True
 
             # Normalize tagging values
             if explicit is not None:
@@ -3107,8 +3114,8 @@ class ObjectIdentifier(Primitive, ValueMap):
         """
 
         if cls not in _SETUP_CLASSES:
-            cls()._setup()
-            _SETUP_CLASSES[cls] = True
+            # Creating an instance sets the class up
+            cls()
 
         if cls._map is None:
             raise ValueError(unwrap(
-- 
2.43.0


From 981696c477842c7b2984a1bc2906e031ec706dfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:39:44 +0000
Subject: [PATCH 06/90] fix: dump() of values whose header ends in 0x80, and of
 a Choice that is indefinite, explicitly tagged or changed

---
 asn1crypto/core.py | 57 ++++++++++++++++++++++++++++++++++------------
 1 file changed, 42 insertions(+), 15 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 82e8a67..95a5ffc 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -651,7 +651,7 @@ class Asn1Value(object):
         contents = self.contents
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if _is_indefinite(self):
             force = True
 
         if self._header is None or force:
@@ -1415,16 +1415,20 @@ class Choice(Asn1Value):
         """
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if _is_indefinite(self):
             force = True
 
-        self._contents = self.chosen.dump(force=force)
-        if self._header is None or force:
+        contents = self.chosen.dump(force=force)
+        # The explicit tagging must match the length of the alternative, which
+        # may have been changed since being parsed
+        if self._header is None or force or contents != self._contents:
             self._header = b''
             if self.explicit is not None:
                 for class_, tag in self.explicit:
-                    self._header = _dump_header(class_, 1, tag, self._header + self._contents) + self._header
-        return self._header + self._contents
+                    self._header = _dump_header(class_, 1, tag, self._header + contents) + self._header
+            self._trailer = b''
+        self._contents = contents
+        return self._header + contents + self._trailer
 
 
 class Concat(object):
@@ -1792,7 +1796,7 @@ class Primitive(Asn1Value):
         """
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if _is_indefinite(self):
             force = True
 
         if force:
@@ -4209,7 +4213,7 @@ class Sequence(Asn1Value):
         """
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if _is_indefinite(self):
             force = True
 
         # We can't force encoding if we don't have a spec
@@ -4682,7 +4686,7 @@ class SequenceOf(Asn1Value):
         """
 
         # If the length is indefinite, force the re-encoding
-        if self._header is not None and self._header[-1:] == b'\x80':
+        if _is_indefinite(self):
             force = True
 
         if force:
@@ -5300,6 +5304,22 @@ class BMPString(AbstractString):
     _encoding = 'utf-16-be'
 
 
+def _is_indefinite(value):
+    """
+    Checks if a value was parsed from an encoding using the indefinite-length
+    method. The header of a long, definite length may also end in 0x80, but
+    only an indefinite length has a trailer.
+
+    :param value:
+        An instance of Asn1Value
+
+    :return:
+        A boolean
+    """
+
+    return value._header is not None and value._header[-1:] == b'\x80' and bool(value._trailer)
+
+
 def _basic_debug(prefix, self):
     """
     Prints out basic information about an Asn1Value object. Extracted for reuse
@@ -5572,8 +5592,10 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
             parsed_method = method
             parsed_tag = tag
             to_parse = contents
-            explicit_header = header
-            explicit_trailer = trailer or b''
+            explicit_header = b''
+            explicit_trailer = b''
+            parsed_header = header
+            parsed_trailer = trailer or b''
             for expected_class, expected_tag in explicit_info:
                 if parsed_class != expected_class:
                     raise ValueError(unwrap(
@@ -5605,12 +5627,16 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                         expected_tag,
                         parsed_tag
                     ))
+                explicit_header += parsed_header
+                explicit_trailer = parsed_trailer + explicit_trailer
+
                 info, _ = _parse(to_parse, len(to_parse))
                 parsed_class, parsed_method, parsed_tag, parsed_header, to_parse, parsed_trailer = info
 
-                if not isinstance(value, Choice):
-                    explicit_header += parsed_header
-                    explicit_trailer = parsed_trailer + explicit_trailer
+            # The chosen alternative of a Choice has the innermost header
+            if not isinstance(value, Choice):
+                explicit_header += parsed_header
+                explicit_trailer = parsed_trailer + explicit_trailer
 
             value = _build(*info, spec=spec, spec_params={'no_explicit': True})
             value._header = explicit_header
@@ -5630,8 +5656,9 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                 value.validate(class_, tag, contents)
                 try:
                     # Force parsing the Choice now
-                    value.contents = header + value.contents
+                    value.contents = header + value.contents + (trailer or b'')
                     header = b''
+                    trailer = b''
                     value.parse()
                 except (ValueError, TypeError) as e:
                     args = e.args[1:]
-- 
2.43.0


From 672afe4e34dcb7e9401a38e418eafc84e0428a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:54 +0000
Subject: [PATCH 07/90] fix: edits of nested values reach the encoding and
 native value of everything that contains them

---
 asn1crypto/core.py | 148 ++++++++++++++++++++++++++++++++++++++-------
 asn1crypto/x509.py |  33 ++++++----
 2 files changed, 147 insertions(+), 34 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 95a5ffc..09d4143 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2801,6 +2801,9 @@ class ParsableOctetString(Constructable, Castable, Primitive):
 
     _parsed = None
 
+    # The number of edits of the parsed structure that are part of .contents
+    _parsed_edits = 0
+
     # Instance attribute of (possibly-merged) byte string
     _bytes = None
 
@@ -2846,6 +2849,7 @@ class ParsableOctetString(Constructable, Castable, Primitive):
             ))
 
         self._bytes = value
+        self._parsed = None
         self.contents = value
         self._header = None
         if self._indefinite:
@@ -2875,6 +2879,7 @@ class ParsableOctetString(Constructable, Castable, Primitive):
         if self._parsed is None or self._parsed[1:3] != (spec, spec_params):
             parsed_value, _ = _parse_build(self.__bytes__(), spec=spec, spec_params=spec_params)
             self._parsed = (parsed_value, spec, spec_params)
+            self._parsed_edits = 0
         return self._parsed[0]
 
     def __bytes__(self):
@@ -2885,6 +2890,8 @@ class ParsableOctetString(Constructable, Castable, Primitive):
 
         if self.contents is None:
             return b''
+        if self._is_edited():
+            self.dump()
         if self._bytes is None:
             self._bytes = self._merge_chunks()
         return self._bytes
@@ -2899,6 +2906,16 @@ class ParsableOctetString(Constructable, Castable, Primitive):
 
         return self.__bytes__()
 
+    def _is_edited(self):
+        """
+        :return:
+            A boolean - if the parsed structure has been edited since .contents
+            was set
+        """
+
+        structure = _structure_of(self)
+        return structure is not None and (structure._is_mutated() or structure._edits != self._parsed_edits)
+
     def _copy(self, other, copy_func):
         """
         Copies the contents of another ParsableOctetString object to itself
@@ -2911,6 +2928,8 @@ class ParsableOctetString(Constructable, Castable, Primitive):
             lists, dicts and objects
         """
 
+        if other._is_edited():
+            other.dump()
         super(ParsableOctetString, self)._copy(other, copy_func)
         self._bytes = other._bytes
         self._parsed = copy_func(other._parsed)
@@ -2962,13 +2981,18 @@ class ParsableOctetString(Constructable, Castable, Primitive):
         if self._indefinite:
             force = True
 
-        if force:
-            if self._parsed is not None:
-                native = self.parsed.dump(force=force)
+        if force or self._is_edited():
+            parsed = self._parsed
+            if parsed is not None:
+                native = parsed[0].dump(force=force)
             else:
                 native = self.native
             self.contents = None
             self.set(native)
+            self._parsed = parsed
+            structure = _structure_of(self)
+            if structure is not None:
+                self._parsed_edits = structure._edits
 
         return Asn1Value.dump(self)
 
@@ -2998,6 +3022,7 @@ class ParsableOctetBitString(ParsableOctetString):
             ))
 
         self._bytes = value
+        self._parsed = None
         # Set the unused bits to 0
         self.contents = b'\x00' + value
         self._header = None
@@ -3412,6 +3437,11 @@ class Sequence(Asn1Value):
     # Variable to track if the object has been mutated
     _mutated = False
 
+    # The number of times edits have been encoded into ._contents, and that
+    # number for each of the children at the time they were encoded
+    _edits = 0
+    _child_edits = ()
+
     # A list of tuples in one of the following forms.
     #
     # Option 1, a unicode string field name and a value class
@@ -3562,13 +3592,7 @@ class Sequence(Asn1Value):
             mutated
         """
 
-        mutated = self._mutated
-        if self.children is not None:
-            for child in self.children:
-                if isinstance(child, Sequence) or isinstance(child, SequenceOf):
-                    mutated = mutated or child._is_mutated()
-
-        return mutated
+        return self._mutated or _has_edited_child(self)
 
     def _lazy_child(self, index):
         """
@@ -3759,6 +3783,8 @@ class Sequence(Asn1Value):
         if self.children is None:
             self._parse_children()
 
+        _before_encode(self)
+
         contents = BytesIO()
         for index, info in enumerate(self._fields):
             child = self.children[index]
@@ -3778,7 +3804,7 @@ class Sequence(Asn1Value):
                     continue
             contents.write(child_dump)
         self._contents = contents.getvalue()
-        self._mutated = False
+        _after_encode(self)
 
         self._header = None
         if self._trailer != b'':
@@ -4260,6 +4286,11 @@ class SequenceOf(Asn1Value):
     # Variable to track if the object has been mutated
     _mutated = False
 
+    # The number of times edits have been encoded into ._contents, and that
+    # number for each of the children at the time they were encoded
+    _edits = 0
+    _child_edits = ()
+
     # An Asn1Value class to use when parsing children
     _child_spec = None
 
@@ -4337,13 +4368,7 @@ class SequenceOf(Asn1Value):
             mutated
         """
 
-        mutated = self._mutated
-        if self.children is not None:
-            for child in self.children:
-                if isinstance(child, Sequence) or isinstance(child, SequenceOf):
-                    mutated = mutated or child._is_mutated()
-
-        return mutated
+        return self._mutated or _has_edited_child(self)
 
     def _lazy_child(self, index):
         """
@@ -4559,11 +4584,13 @@ class SequenceOf(Asn1Value):
         if self.children is None:
             self._parse_children()
 
+        _before_encode(self)
+
         contents = BytesIO()
         for child in self:
             contents.write(child.dump(force=force))
         self._contents = contents.getvalue()
-        self._mutated = False
+        _after_encode(self)
         self._header = None
         if self._trailer != b'':
             self._trailer = b''
@@ -4862,6 +4889,8 @@ class Set(Sequence):
         if self.children is None:
             self._parse_children()
 
+        _before_encode(self)
+
         child_tag_encodings = []
         for index, child in enumerate(self.children):
             child_encoding = child.dump(force=force)
@@ -4876,7 +4905,7 @@ class Set(Sequence):
         child_tag_encodings.sort(key=lambda ct: ct[0])
 
         self._contents = b''.join([ct[1] for ct in child_tag_encodings])
-        self._mutated = False
+        _after_encode(self)
         self._header = None
         if self._trailer != b'':
             self._trailer = b''
@@ -4905,12 +4934,14 @@ class SetOf(SequenceOf):
         if self.children is None:
             self._parse_children()
 
+        _before_encode(self)
+
         child_encodings = []
         for child in self:
             child_encodings.append(child.dump(force=force))
 
         self._contents = b''.join(sorted(child_encodings))
-        self._mutated = False
+        _after_encode(self)
         self._header = None
         if self._trailer != b'':
             self._trailer = b''
@@ -5320,6 +5351,81 @@ def _is_indefinite(value):
     return value._header is not None and value._header[-1:] == b'\x80' and bool(value._trailer)
 
 
+def _structure_of(child):
+    """
+    Finds the structure that the encoding of a child value is made from
+
+    :param child:
+        An element of the .children of a Sequence, SequenceOf, Set or SetOf
+
+    :return:
+        A Sequence or SequenceOf object, or None if the child is not one, does
+        not contain one or has not been parsed yet
+    """
+
+    while True:
+        if isinstance(child, Choice):
+            child = child._parsed
+        elif isinstance(child, (Any, ParsableOctetString)):
+            child = child._parsed[0] if child._parsed is not None else None
+        elif isinstance(child, (Sequence, SequenceOf)):
+            return child
+        else:
+            return None
+
+
+def _has_edited_child(value):
+    """
+    :param value:
+        A Sequence or SequenceOf object
+
+    :return:
+        A boolean - if any of the children have been edited since the contents
+        of the value were encoded
+    """
+
+    if value.children is None:
+        return False
+    seen = value._child_edits
+    for index, child in enumerate(value.children):
+        structure = _structure_of(child)
+        if structure is None:
+            continue
+        if structure._is_mutated():
+            return True
+        if structure._edits != (seen[index] if index < len(seen) else 0):
+            return True
+    return False
+
+
+def _before_encode(value):
+    """
+    Called before the contents of a Sequence or SequenceOf are encoded from its
+    children. The native value is only kept if it is still current.
+
+    :param value:
+        A Sequence or SequenceOf object
+    """
+
+    if value._is_mutated():
+        value._edits += 1
+        value._native = None
+
+
+def _after_encode(value):
+    """
+    Called once the contents of a Sequence or SequenceOf have been encoded from
+    its children
+
+    :param value:
+        A Sequence or SequenceOf object
+    """
+
+    value._mutated = False
+    structures = [_structure_of(child) for child in value.children]
+    value._child_edits = [0 if st is None else st._edits for st in structures]
+
+
 def _basic_debug(prefix, self):
     """
     Prints out basic information about an Asn1Value object. Extracted for reuse
diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index f595b2c..3512332 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -697,6 +697,9 @@ class NameTypeAndValue(Sequence):
 
     _prepped = None
 
+    # The native value that ._prepped was made from
+    _prepped_native = None
+
     @property
     def prepped_value(self):
         """
@@ -707,14 +710,15 @@ class NameTypeAndValue(Sequence):
             A unicode string
         """
 
-        if self._prepped is None:
-            native = self['value'].native
+        native = self['value'].native
+        if self._prepped is None or self._prepped_native != native:
             if isinstance(native, str_cls):
                 self._prepped = self._ldap_string_prep(native)
             else:
                 if isinstance(native, byte_cls):
                     native = ' ' + native.decode('cp1252') + ' '
                 self._prepped = native
+            self._prepped_native = native
         return self._prepped
 
     def __ne__(self, other):
@@ -981,8 +985,10 @@ class Name(Choice):
     ]
 
     _human_friendly = None
-    _sha1 = None
-    _sha256 = None
+
+    # What ._native and ._human_friendly were made from
+    _native_rdns = None
+    _human_friendly_native = None
 
     @classmethod
     def build(cls, name_dict, use_printable=False):
@@ -1089,9 +1095,12 @@ class Name(Choice):
 
     @property
     def native(self):
-        if self._native is None:
+        rdns = self.chosen.native
+        # The relative names get a new native value when they are edited
+        if self._native is None or self._native_rdns is not rdns:
+            self._native_rdns = rdns
             self._native = OrderedDict()
-            for rdn in self.chosen.native:
+            for rdn in rdns:
                 for type_val in rdn:
                     field_name = type_val['type']
                     if field_name in self._native:
@@ -1110,7 +1119,9 @@ class Name(Choice):
             A human-friendly unicode string containing the parts of the name
         """
 
-        if self._human_friendly is None:
+        native = self.native
+        if self._human_friendly is None or self._human_friendly_native is not native:
+            self._human_friendly_native = native
             data = OrderedDict()
             last_field = None
             for rdn in self.chosen:
@@ -1166,9 +1177,7 @@ class Name(Choice):
             The SHA1 hash of the DER-encoded bytes of this name
         """
 
-        if self._sha1 is None:
-            self._sha1 = hashlib.sha1(self.dump()).digest()
-        return self._sha1
+        return hashlib.sha1(self.dump()).digest()
 
     @property
     def sha256(self):
@@ -1177,9 +1186,7 @@ class Name(Choice):
             The SHA-256 hash of the DER-encoded bytes of this name
         """
 
-        if self._sha256 is None:
-            self._sha256 = hashlib.sha256(self.dump()).digest()
-        return self._sha256
+        return hashlib.sha256(self.dump()).digest()
 
 
 class AnotherName(Sequence):
-- 
2.43.0


From adafd08388e3be06060dbc3417dc1d10cdcee85e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:49:13 +0000
Subject: [PATCH 08/90] fix: constructed strings in definite form, chunks with
 their universal tag, and re-encoding of bit strings and times keep their
 value

---
 asn1crypto/core.py | 146 ++++++++++++++++++++++++++++++++-------------
 1 file changed, 105 insertions(+), 41 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 09d4143..1ad6049 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -61,7 +61,7 @@ from . import _teletex_codec
 from ._errors import unwrap
 from ._ordereddict import OrderedDict
 from ._types import type_name, str_cls, byte_cls, int_types, chr_cls
-from .parser import _parse, _dump_header
+from .parser import _MAX_DEPTH, _parse, _dump_header
 from .util import int_to_bytes, int_from_bytes, timezone, extended_datetime, create_timezone, utc_with_dst
 
 if sys.version_info <= (3,):
@@ -103,7 +103,7 @@ METHOD_NUM_TO_NAME_MAP = {
 }
 
 
-_OID_RE = re.compile(r'^\d+(\.\d+)*$')
+_OID_RE = re.compile(r'^[0-9]+(\.[0-9]+)*\Z')
 
 
 # A global tracker to ensure that _setup() is called for every class, even
@@ -755,12 +755,22 @@ class Constructable(object):
     contained within an indefinite length BER-encoded container
     """
 
-    # Instance attribute indicating if an object was indefinite
-    # length when parsed - affects parsing and dumping
+    # Instance attribute indicating if an object used the constructed
+    # method when parsed - affects parsing and dumping
     _indefinite = False
 
-    def _merge_chunks(self):
+    # The universal tag of the chunks - other than for bit strings, these are
+    # octet strings
+    _chunk_tag = 4
+
+    def _merge_chunks(self, depth=0):
         """
+        :param depth:
+            The number of constructed encodings this one is nested inside
+
+        :raises:
+            ValueError - when the chunks are not valid
+
         :return:
             A concatenation of the native values of the contained chunks
         """
@@ -772,13 +782,22 @@ class Constructable(object):
         contents_len = len(self.contents)
         output = None
 
+        if depth > _MAX_DEPTH:
+            raise ValueError('Constructed encoding is nested too deeply')
+
         while pointer < contents_len:
+            info, pointer = _parse(self.contents, contents_len, pointer)
             # We pass the current class as the spec so content semantics are preserved
-            sub_value, pointer = _parse_build(self.contents, pointer, spec=self.__class__)
+            spec = self.__class__
+            spec_params = None
+            if info[0] == 0 and info[2] == self._chunk_tag:
+                # The chunks never have the tagging of the value
+                spec_params = {'no_explicit': True, 'class_': 0, 'tag': self._chunk_tag}
+            sub_value = _build(*info, spec=spec, spec_params=spec_params)
             if output is None:
-                output = sub_value._merge_chunks()
+                output = sub_value._merge_chunks(depth + 1)
             else:
-                output += sub_value._merge_chunks()
+                output += sub_value._merge_chunks(depth + 1)
 
         if output is None:
             return self._as_chunk()
@@ -797,20 +816,6 @@ class Constructable(object):
 
         return self.contents
 
-    def _setable_native(self):
-        """
-        Returns a native value that can be round-tripped into .set(), to
-        result in a DER encoding. This differs from .native in that .native
-        is designed for the end use, and may account for the fact that the
-        merged value is further parsed as ASN.1, such as in the case of
-        ParsableOctetString() and ParsableOctetBitString().
-
-        :return:
-            A python value that is valid to pass to .set()
-        """
-
-        return self.native
-
     def _copy(self, other, copy_func):
         """
         Copies the contents of another Constructable object to itself
@@ -827,7 +832,8 @@ class Constructable(object):
         # We really don't want to dump BER encodings, so if we see an
         # indefinite encoding, let's re-encode it
         if other._indefinite:
-            self.set(other._setable_native())
+            self._indefinite = True
+            self._reencode()
 
 
 class Void(Asn1Value):
@@ -1783,6 +1789,13 @@ class Primitive(Asn1Value):
         if self._trailer != b'':
             self._trailer = b''
 
+    def _reencode(self):
+        """
+        Replaces .contents by its DER encoding
+        """
+
+        self.set(self.native)
+
     def dump(self, force=False):
         """
         Encodes the value using DER
@@ -1800,9 +1813,7 @@ class Primitive(Asn1Value):
             force = True
 
         if force:
-            native = self.native
-            self.contents = None
-            self.set(native)
+            self._reencode()
 
         return Asn1Value.dump(self)
 
@@ -2067,6 +2078,8 @@ class _IntegerBitString(object):
     A mixin for IntegerBitString and BitString to parse the contents as an integer.
     """
 
+    _chunk_tag = 3
+
     # Tuple of 1s and 0s; set through native
     _unused_bits = ()
 
@@ -2088,6 +2101,9 @@ class _IntegerBitString(object):
             # return an empty chunk, for cases like \x23\x80\x00\x00
             return []
 
+        if not self.contents:
+            raise ValueError('Bit string does not contain the number of unused bits')
+
         unused_bits_len = ord(self.contents[0]) if _PY2 else self.contents[0]
         value = int_from_bytes(self.contents[1:])
         bits = (len(self.contents) - 1) * 8
@@ -2432,6 +2448,8 @@ class OctetBitString(Constructable, Castable, Primitive):
 
     tag = 3
 
+    _chunk_tag = 3
+
     # Instance attribute of (possibly-merged) byte string
     _bytes = None
 
@@ -2492,6 +2510,18 @@ class OctetBitString(Constructable, Castable, Primitive):
 
         return self._bytes
 
+    def _reencode(self):
+        """
+        Replaces .contents by its DER encoding
+        """
+
+        value = self.__bytes__()
+        unused_bits_len = len(self._unused_bits)
+        self.set(value)
+        if unused_bits_len:
+            self.contents = chr_cls(unused_bits_len) + value
+            self._unused_bits = (0,) * unused_bits_len
+
     def _copy(self, other, copy_func):
         """
         Copies the contents of another OctetBitString object to itself
@@ -2519,6 +2549,12 @@ class OctetBitString(Constructable, Castable, Primitive):
             List with one tuple, consisting of a byte string and an integer (unused bits)
         """
 
+        if self._indefinite:
+            return []
+
+        if not self.contents:
+            raise ValueError('Bit string does not contain the number of unused bits')
+
         unused_bits_len = ord(self.contents[0]) if _PY2 else self.contents[0]
         if not unused_bits_len:
             return [(self.contents[1:], ())]
@@ -2618,6 +2654,20 @@ class IntegerBitString(_IntegerBitString, Constructable, Castable, Primitive):
         if self._trailer != b'':
             self._trailer = b''
 
+    def _reencode(self):
+        """
+        Replaces .contents by its DER encoding
+        """
+
+        value, bits, unused_bits = self._chunks_to_int()
+        unused_bits_len = len(unused_bits)
+        self.set(value)
+        value_bytes = b''
+        if bits:
+            value_bytes = int_to_bytes(value << unused_bits_len, width=(bits + unused_bits_len) // 8)
+        self.contents = chr_cls(unused_bits_len) + value_bytes
+        self._unused_bits = (0,) * unused_bits_len
+
     @property
     def native(self):
         """
@@ -2896,15 +2946,12 @@ class ParsableOctetString(Constructable, Castable, Primitive):
             self._bytes = self._merge_chunks()
         return self._bytes
 
-    def _setable_native(self):
+    def _reencode(self):
         """
-        Returns a byte string that can be passed into .set()
-
-        :return:
-            A python value that is valid to pass to .set()
+        Replaces .contents by its DER encoding
         """
 
-        return self.__bytes__()
+        self.set(self.__bytes__())
 
     def _is_edited(self):
         """
@@ -2978,7 +3025,7 @@ class ParsableOctetString(Constructable, Castable, Primitive):
         """
 
         # If the length is indefinite, force the re-encoding
-        if self._indefinite:
+        if _is_indefinite(self):
             force = True
 
         if force or self._is_edited():
@@ -3001,6 +3048,8 @@ class ParsableOctetBitString(ParsableOctetString):
 
     tag = 3
 
+    _chunk_tag = 3
+
     def set(self, value):
         """
         Sets the value of the object
@@ -3043,6 +3092,12 @@ class ParsableOctetBitString(ParsableOctetString):
             A byte string
         """
 
+        if self._indefinite:
+            return b''
+
+        if not self.contents:
+            raise ValueError('Bit string does not contain the number of unused bits')
+
         unused_bits_len = ord(self.contents[0]) if _PY2 else self.contents[0]
         if unused_bits_len:
             raise ValueError('ParsableOctetBitString should have no unused bits')
@@ -5068,6 +5123,17 @@ class AbstractTime(AbstractString):
             'fraction': fract_usec,
         }
 
+    def _reencode(self):
+        """
+        Replaces .contents by its DER encoding
+        """
+
+        value = self.native
+        if value.tzinfo is None:
+            # A local time can not be converted to UTC, so the string is kept
+            value = str_cls(self)
+        self.set(value)
+
     @property
     def native(self):
         """
@@ -5130,7 +5196,7 @@ class UTCTime(AbstractTime):
                 (?P<dminute>\d{2})
             )
         )
-        $
+        \Z
     ''', re.X)
 
     def set(self, value):
@@ -5226,7 +5292,7 @@ class GeneralizedTime(AbstractTime):
                 (?P<dminute>\d{2})?
             )
         )?
-        $
+        \Z
     ''', re.X)
 
     def set(self, value):
@@ -5253,7 +5319,7 @@ class GeneralizedTime(AbstractTime):
             else:
                 fraction = ''
 
-            value = value.strftime('%Y%m%d%H%M%S') + fraction + 'Z'
+            value = ('%04d' % value.year) + value.strftime('%m%d%H%M%S') + fraction + 'Z'
             if _PY2:
                 value = value.decode('ascii')
 
@@ -5784,9 +5850,8 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                     ))
                 if method != value.method:
                     # Allow parsing a primitive method as constructed if the value
-                    # is indefinite length. This is to allow parsing BER.
-                    ber_indef = method == 1 and value.method == 0 and trailer == b'\x00\x00'
-                    if not ber_indef or not isinstance(value, Constructable):
+                    # is a string. This is to allow parsing BER.
+                    if value.method != 0 or not isinstance(value, Constructable):
                         raise ValueError(unwrap(
                             '''
                             Error parsing %s - method should have been %s, but %s was found
@@ -5850,8 +5915,7 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
         spec = _UNIVERSAL_SPECS[tag]
 
         value = spec(contents=contents, class_=class_)
-        ber_indef = method == 1 and value.method == 0 and trailer == b'\x00\x00'
-        if ber_indef and isinstance(value, Constructable):
+        if method == 1 and value.method == 0 and isinstance(value, Constructable):
             value._indefinite = True
         value.method = method
 
-- 
2.43.0


From f35794b28d1954b49fe635a2a4072a52efab1e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:13 +0000
Subject: [PATCH 09/90] fix: object identifiers, enumerations and named bit
 lists refuse values they cannot represent, and keep the bits without a name

---
 asn1crypto/core.py | 111 +++++++++++++++++++++++++++++++--------------
 1 file changed, 78 insertions(+), 33 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 1ad6049..3264723 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2226,27 +2226,57 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
                     type_name(self)
                 ))
 
-            bits = [0] * self._size
-            self._native = value
-            for index in range(0, self._size):
-                key = self._map.get(index)
-                if key is None:
-                    continue
-                if key in value:
+            size = self._size
+            for key in value:
+                # Integers are the positions of bits that do not have a name
+                if isinstance(key, int_types) and key >= 0:
+                    size = max(size, key + 1)
+                elif key not in self._reverse_map:
+                    raise ValueError(unwrap(
+                        '''
+                        %s._map does not contain an entry for %s
+                        ''',
+                        type_name(self),
+                        repr(key)
+                    ))
+
+            bits = [0] * size
+            native = set()
+            for index in range(0, size):
+                key = self._map.get(index, index)
+                if key in value or index in value:
                     bits[index] = 1
+                    native.add(key)
 
             value = ''.join(map(str_cls, bits))
 
         elif value.__class__ == tuple:
+            if any(bit not in (0, 1) for bit in value):
+                raise ValueError(unwrap(
+                    '''
+                    %s value must only contain ones and zeros, not %s
+                    ''',
+                    type_name(self),
+                    repr(value)
+                ))
             if self._map is None:
-                self._native = value
+                native = value
             else:
-                self._native = set()
+                if len(value) > self._size:
+                    raise ValueError(unwrap(
+                        '''
+                        %s value must be at most %s bits long, specified was %s long
+                        ''',
+                        type_name(self),
+                        self._size,
+                        len(value)
+                    ))
+                native = set()
                 for index, bit in enumerate(value):
                     if bit:
                         name = self._map.get(index, index)
-                        self._native.add(name)
-            value = ''.join(map(str_cls, value))
+                        native.add(name)
+            value = ''.join('1' if bit else '0' for bit in value)
 
         else:
             raise TypeError(unwrap(
@@ -2259,15 +2289,6 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
             ))
 
         if self._map is not None:
-            if len(value) > self._size:
-                raise ValueError(unwrap(
-                    '''
-                    %s value must be at most %s bits long, specified was %s long
-                    ''',
-                    type_name(self),
-                    self._size,
-                    len(value)
-                ))
             # A NamedBitList must have trailing zero bit truncated. See
             # https://www.itu.int/ITU-T/studygroups/com17/languages/X.690-0207.pdf
             # section 11.2,
@@ -2296,6 +2317,7 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
         if len(value_bytes) != size_in_bytes:
             value_bytes = (b'\x00' * (size_in_bytes - len(value_bytes))) + value_bytes
 
+        self._native = native
         self.contents = extra_bits_byte + value_bytes
         self._unused_bits = (0,) * extra_bits
         self._header = None
@@ -2394,20 +2416,19 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
             if key > max_key:
                 new_native.extend([0] * (key - max_key))
             new_native[key] = 1 if value else 0
-            self._native = tuple(new_native)
+            new_native = tuple(new_native)
 
         else:
             if is_int:
                 key = self._map.get(key, key)
 
+            new_native = set(self._native)
             if value:
-                if key not in self._native:
-                    self._native.add(key)
+                new_native.add(key)
             else:
-                if key in self._native:
-                    self._native.remove(key)
+                new_native.discard(key)
 
-        self.set(self._native)
+        self.set(new_native)
 
     @property
     def native(self):
@@ -3252,13 +3273,22 @@ class ObjectIdentifier(Primitive, ValueMap):
                 type_name(value)
             ))
 
-        self._native = value
-
         if self._map is not None:
             if value in self._reverse_map:
                 value = self._reverse_map[value]
 
-        self.contents = b''
+        if not _OID_RE.match(value) or '.' not in value:
+            raise ValueError(unwrap(
+                '''
+                %s value must be a dotted integer with at least two arcs%s, not
+                %s
+                ''',
+                type_name(self),
+                '' if self._map is None else ', or a name from the _map',
+                repr(value)
+            ))
+
+        contents = b''
         first = None
         for index, part in enumerate(value.split('.')):
             part = int(part)
@@ -3290,8 +3320,11 @@ class ObjectIdentifier(Primitive, ValueMap):
             while part > 0:
                 encoded_part = chr_cls(0x80 | (0x7F & part)) + encoded_part
                 part = part >> 7
-            self.contents += encoded_part
+            contents += encoded_part
 
+        self.contents = contents
+        self._native = None
+        self._dotted = None
         self._header = None
         if self._trailer != b'':
             self._trailer = b''
@@ -3414,7 +3447,7 @@ class Enumerated(Integer):
             ))
 
         if isinstance(value, str_cls):
-            if value not in self._reverse_map:
+            if self._reverse_map is None or value not in self._reverse_map:
                 raise ValueError(unwrap(
                     '''
                     %s value "%s" is not a valid value
@@ -3425,7 +3458,7 @@ class Enumerated(Integer):
 
             value = self._reverse_map[value]
 
-        elif value not in self._map:
+        elif self._map is not None and value not in self._map:
             raise ValueError(unwrap(
                 '''
                 %s value %s is not a valid value
@@ -3449,7 +3482,19 @@ class Enumerated(Integer):
             return None
 
         if self._native is None:
-            self._native = self._map[self.__int__()]
+            value = self.__int__()
+            if self._map is None:
+                self._native = value
+            elif value in self._map:
+                self._native = self._map[value]
+            else:
+                raise ValueError(unwrap(
+                    '''
+                    %s value %s is not a valid value
+                    ''',
+                    type_name(self),
+                    value
+                ))
         return self._native
 
 
-- 
2.43.0


From 2233dfd63f128fb3f976f762ebdd938e70285d6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:38 +0000
Subject: [PATCH 10/90] fix: sets sort by outermost tag, refuse a member twice,
 and match a Choice; elements beyond the definition are kept

---
 asn1crypto/core.py | 60 ++++++++++++++++++++++++++++++++++++++++++----
 1 file changed, 56 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 3264723..651ed54 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3903,6 +3903,12 @@ class Sequence(Asn1Value):
                 if default_value.dump() == child_dump:
                     continue
             contents.write(child_dump)
+        # Elements that are not part of the definition are kept as they are
+        for child in self.children[len(self._fields):]:
+            if child.__class__ == tuple:
+                contents.write(child[3] + child[4] + child[5])
+            else:
+                contents.write(child.dump())
         self._contents = contents.getvalue()
         _after_encode(self)
 
@@ -4343,7 +4349,7 @@ class Sequence(Asn1Value):
             force = True
 
         # We can't force encoding if we don't have a spec
-        if force and self._fields == [] and self.__class__ is Sequence:
+        if force and not self._fields:
             force = False
 
         if force:
@@ -4889,6 +4895,11 @@ class Set(Sequence):
                         self.children[index] = self._make_value(field_name, field_spec, value_spec, field_params, None)
             return
 
+        # Without a definition there are no tags to match the children by
+        if not self._fields:
+            Sequence._parse_children(self, recurse)
+            return
+
         try:
             child_map = {}
             contents_length = len(self.contents)
@@ -4900,6 +4911,8 @@ class Set(Sequence):
                 id_ = (parts[0], parts[2])
 
                 field = self._field_ids.get(id_)
+                if field is None:
+                    field = self._find_choice(parts)
                 if field is None:
                     raise ValueError(unwrap(
                         '''
@@ -4912,6 +4925,15 @@ class Set(Sequence):
                         parts[2],
                     ))
 
+                if field in child_map:
+                    raise ValueError(unwrap(
+                        '''
+                        Data for field "%s" is present more than once in %s
+                        ''',
+                        self._fields[field][0],
+                        type_name(self)
+                    ))
+
                 _, field_spec, value_spec, field_params, spec_override = (
                     cls._precomputed_specs[field] or self._determine_spec(field))
 
@@ -4970,10 +4992,32 @@ class Set(Sequence):
                 self.children.append(child_map[index])
 
         except (ValueError, TypeError) as e:
+            self.children = None
             args = e.args[1:]
             e.args = (e.args[0] + '\n    while parsing %s' % type_name(self),) + args
             raise e
 
+    def _find_choice(self, parts):
+        """
+        Finds the field with a Choice type that accepts an encoded value
+
+        :param parts:
+            A tuple of the parts of the encoded value, from _parse()
+
+        :return:
+            None or an integer index into _fields
+        """
+
+        for index, (_, field_spec, field_params) in enumerate(self._fields):
+            if not issubclass(field_spec, Choice):
+                continue
+            try:
+                field_spec(**field_params).validate(parts[0], parts[2], parts[4])
+                return index
+            except (ValueError):
+                pass
+        return None
+
     def _set_contents(self, force=False):
         """
         Encodes all child objects into the contents for this object.
@@ -4992,8 +5036,12 @@ class Set(Sequence):
         _before_encode(self)
 
         child_tag_encodings = []
-        for index, child in enumerate(self.children):
-            child_encoding = child.dump(force=force)
+        for index in range(0, len(self._fields)):
+            child_encoding = self._lazy_child(index).dump(force=force)
+
+            # Skip encoding absent children
+            if child_encoding == b'':
+                continue
 
             # Skip encoding defaulted children
             name, spec, field_params = self._fields[index]
@@ -5001,7 +5049,11 @@ class Set(Sequence):
                 if spec(**field_params).dump() == child_encoding:
                     continue
 
-            child_tag_encodings.append((child.tag, child_encoding))
+            # The order is that of the outermost tag of each child, which is
+            # not that of the child itself if it is a Choice or is explicitly
+            # tagged
+            parts, _ = _parse(child_encoding, len(child_encoding))
+            child_tag_encodings.append(((parts[0], parts[2]), child_encoding))
         child_tag_encodings.sort(key=lambda ct: ct[0])
 
         self._contents = b''.join([ct[1] for ct in child_tag_encodings])
-- 
2.43.0


From 7c6c8f10f03b2c6230e461fb58bc99681c5e7634 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:13 +0000
Subject: [PATCH 11/90] fix: variation selectors, not half of the BMP above
 them, are ignored when names are compared

---
 asn1crypto/x509.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 3512332..e18c7ef 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -756,7 +756,7 @@ class NameTypeAndValue(Sequence):
         """
 
         # Map step
-        string = re.sub('[\u00ad\u1806\u034f\u180b-\u180d\ufe0f-\uff00\ufffc]+', '', string)
+        string = re.sub('[\u00ad\u1806\u034f\u180b-\u180d\ufe00-\ufe0f\ufffc]+', '', string)
         string = re.sub('[\u0009\u000a\u000b\u000c\u000d\u0085]', ' ', string)
         if sys.maxunicode == 0xffff:
             # Some installs of Python 2.7 don't support 8-digit unicode escape
-- 
2.43.0


From b1eb2ecbab7b2a37d059416bf18c9c24a9ff77e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:28 +0000
Subject: [PATCH 12/90] fix: the size of a key is exact, and known for every
 kind of key

---
 asn1crypto/keys.py | 93 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 66 insertions(+), 27 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 92716e1..d0c647f 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -17,7 +17,6 @@ Other type classes are defined that help compose the types listed above.
 from __future__ import unicode_literals, division, absolute_import, print_function
 
 import hashlib
-import math
 
 from ._errors import unwrap, APIException
 from ._types import type_name, byte_cls
@@ -42,6 +41,32 @@ from .core import (
 from .util import int_from_bytes, int_to_bytes
 
 
+def _byte_len(value):
+    """
+    The size of a key is computed from bytes since floats are not able to tell
+    a number slightly larger than a power of two from that power
+
+    :param value:
+        An integer
+
+    :raises:
+        ValueError - when the value is not positive
+
+    :return:
+        An integer - the number of bytes necessary for the value
+    """
+
+    if value < 1:
+        raise ValueError(unwrap(
+            '''
+            Unable to compute the size of a key from %s
+            ''',
+            value
+        ))
+
+    return len(int_to_bytes(value))
+
+
 class OtherPrimeInfo(Sequence):
     """
     Source: https://tools.ietf.org/html/rfc3447#page-46
@@ -148,10 +173,7 @@ class _ECPoint():
             An ECPoint object
         """
 
-        x_bytes = int(math.ceil(math.log(x, 2) / 8.0))
-        y_bytes = int(math.ceil(math.log(y, 2) / 8.0))
-
-        num_bytes = max(x_bytes, y_bytes)
+        num_bytes = max(len(int_to_bytes(x)), len(int_to_bytes(y)))
 
         byte_string = b'\x04'
         byte_string += int_to_bytes(x, width=num_bytes)
@@ -533,8 +555,8 @@ class ECDomainParameters(Choice):
             ))
 
         if self.name == 'specified':
-            order = self.chosen['order'].native
-            return math.ceil(math.log(order, 2.0) / 8.0)
+            # A private key is less than the order
+            return _byte_len(self.chosen['order'].native - 1)
 
         oid = self.chosen.dotted
         if oid not in NamedCurve._key_sizes:
@@ -897,7 +919,7 @@ class PrivateKeyInfo(Sequence):
                 self.algorithm.upper()
             ))
 
-        byte_len = math.log(self['private_key_algorithm']['parameters']['q'].native, 2) / 8
+        byte_len = _byte_len(self['private_key_algorithm']['parameters']['q'].native)
 
         return 'sha1' if byte_len <= 20 else 'sha2'
 
@@ -921,15 +943,23 @@ class PrivateKeyInfo(Sequence):
 
         if self._bit_size is None:
             if self.algorithm == 'rsa' or self.algorithm == 'rsassa_pss':
-                prime = self['private_key'].parsed['modulus'].native
+                byte_len = _byte_len(self['private_key'].parsed['modulus'].native)
             elif self.algorithm == 'dsa':
-                prime = self['private_key_algorithm']['parameters']['p'].native
+                byte_len = _byte_len(self['private_key_algorithm']['parameters']['p'].native)
             elif self.algorithm == 'ec':
-                prime = self['private_key'].parsed['private_key'].native
-            self._bit_size = int(math.ceil(math.log(prime, 2)))
-            modulus = self._bit_size % 8
-            if modulus != 0:
-                self._bit_size += 8 - modulus
+                # The octets have the size of the curve, even if the value of
+                # this private key happens to be smaller
+                byte_len = len(self['private_key'].parsed['private_key']._merge_chunks())
+            elif self.algorithm in set(['ed25519', 'ed448', 'x25519', 'x448']):
+                byte_len = len(self['private_key'].parsed.native)
+            else:
+                raise ValueError(unwrap(
+                    '''
+                    The size of a %s key is not known
+                    ''',
+                    self.algorithm
+                ))
+            self._bit_size = byte_len * 8
         return self._bit_size
 
     @property
@@ -939,7 +969,7 @@ class PrivateKeyInfo(Sequence):
             The byte size of the private key, as an integer
         """
 
-        return int(math.ceil(self.bit_size / 8))
+        return self.bit_size // 8
 
     @property
     def public_key(self):
@@ -1226,7 +1256,7 @@ class PublicKeyInfo(Sequence):
         if parameters.native is None:
             return None
 
-        byte_len = math.log(parameters['q'].native, 2) / 8
+        byte_len = _byte_len(parameters['q'].native)
 
         return 'sha1' if byte_len <= 20 else 'sha2'
 
@@ -1250,16 +1280,25 @@ class PublicKeyInfo(Sequence):
 
         if self._bit_size is None:
             if self.algorithm == 'ec':
-                self._bit_size = int(((len(self['public_key'].native) - 1) / 2) * 8)
+                point = self['public_key'].native
+                # A compressed point only contains the X coordinate
+                coords = 1 if point[0:1] in set([b'\x02', b'\x03']) else 2
+                self._bit_size = int(((len(point) - 1) / coords) * 8)
             else:
-                if self.algorithm == 'rsa' or self.algorithm == 'rsassa_pss':
-                    prime = self['public_key'].parsed['modulus'].native
-                elif self.algorithm == 'dsa':
-                    prime = self['algorithm']['parameters']['p'].native
-                self._bit_size = int(math.ceil(math.log(prime, 2)))
-                modulus = self._bit_size % 8
-                if modulus != 0:
-                    self._bit_size += 8 - modulus
+                if self.algorithm in set(['rsa', 'rsassa_pss', 'rsaes_oaep']):
+                    byte_len = _byte_len(self['public_key'].parsed['modulus'].native)
+                elif self.algorithm == 'dsa' or self.algorithm == 'dh':
+                    byte_len = _byte_len(self['algorithm']['parameters']['p'].native)
+                elif self.algorithm in set(['ed25519', 'ed448', 'x25519', 'x448']):
+                    byte_len = len(self['public_key'].native)
+                else:
+                    raise ValueError(unwrap(
+                        '''
+                        The size of a %s key is not known
+                        ''',
+                        self.algorithm
+                    ))
+                self._bit_size = byte_len * 8
 
         return self._bit_size
 
@@ -1270,7 +1309,7 @@ class PublicKeyInfo(Sequence):
             The byte size of the public key, as an integer
         """
 
-        return int(math.ceil(self.bit_size / 8))
+        return self.bit_size // 8
 
     @property
     def sha1(self):
-- 
2.43.0


From 849763760f67d917eeddc094ce59b7ffed08beca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:28 +0000
Subject: [PATCH 13/90] fix: a version 1 attribute certificate with the default
 version is recognised

---
 asn1crypto/cms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/cms.py b/asn1crypto/cms.py
index b104c99..fb2c566 100644
--- a/asn1crypto/cms.py
+++ b/asn1crypto/cms.py
@@ -510,7 +510,9 @@ class CertificateChoices(Choice):
 
         super(CertificateChoices, self).validate(class_, tag, contents)
         if self._choice == 2:
-            if AttCertVersion.load(Sequence.load(contents)[0].dump()).native == 'v2':
+            # The version is only present when it is not v1, the default
+            info = Sequence.load(contents)
+            if len(info) > 0 and isinstance(info[0], Integer) and info[0].native == 1:
                 self._choice = 3
 
 
-- 
2.43.0


From 8c66e966329bead6f9a32a1e4351a1bfbc7117ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:28 +0000
Subject: [PATCH 14/90] fix: X.400 extension attributes are a SET OF, and
 requires_auth of an Adobe timestamp reads as its default once built

---
 asn1crypto/pdf.py  | 2 +-
 asn1crypto/x509.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/pdf.py b/asn1crypto/pdf.py
index b72c886..a9bad4d 100644
--- a/asn1crypto/pdf.py
+++ b/asn1crypto/pdf.py
@@ -38,7 +38,7 @@ class AdobeTimestamp(Sequence):
     _fields = [
         ('version', Integer),
         ('location', GeneralName),
-        ('requires_auth', Boolean, {'optional': True, 'default': False}),
+        ('requires_auth', Boolean, {'default': False}),
     ]
 
 
diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index e18c7ef..61063f1 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1415,7 +1415,7 @@ class ExtensionAttribute(Sequence):
     }
 
 
-class ExtensionAttributes(SequenceOf):
+class ExtensionAttributes(SetOf):
     _child_spec = ExtensionAttribute
 
 
-- 
2.43.0


From 4b57b6488f84cc4c5cd3b1ba41a873d817922bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:01 +0000
Subject: [PATCH 15/90] fix: re-encoding an integer octet string keeps its
 octets

---
 asn1crypto/core.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 651ed54..fb89b36 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2852,6 +2852,16 @@ class IntegerOctetString(Constructable, Castable, Primitive):
             self._native = int_from_bytes(self._merge_chunks())
         return self._native
 
+    def _reencode(self):
+        """
+        Replaces .contents by its DER encoding
+        """
+
+        # The leading zeros are part of the octet string
+        value = self._merge_chunks()
+        self.set(self.native)
+        self.contents = value
+
     def set_encoded_width(self, width):
         """
         Set the explicit enoding width for the integer
-- 
2.43.0


From 626b892cc05b3a6b3de7ea7aeed6c7c0b1906675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:06:01 +0000
Subject: [PATCH 16/90] fix: the subject of a version 1 attribute certificate
 is not taken for a version

---
 asn1crypto/cms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/cms.py b/asn1crypto/cms.py
index fb2c566..f99a4eb 100644
--- a/asn1crypto/cms.py
+++ b/asn1crypto/cms.py
@@ -511,8 +511,8 @@ class CertificateChoices(Choice):
         super(CertificateChoices, self).validate(class_, tag, contents)
         if self._choice == 2:
             # The version is only present when it is not v1, the default
-            info = Sequence.load(contents)
-            if len(info) > 0 and isinstance(info[0], Integer) and info[0].native == 1:
+            info = Sequence.load(contents).contents
+            if info[0:1] == b'\x02' and Integer.load(info).native == 1:
                 self._choice = 3
 
 
-- 
2.43.0


From 25f11b0cde2501d1a376b0360a6d677fe08db876 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:39:51 +0000
Subject: [PATCH 17/90] fix: members and alternatives are matched by their
 outermost tag, explicit and implicit tags combine, and a wrapped choice keeps
 its wrapper

---
 asn1crypto/core.py | 97 ++++++++++++++++++++++++++++++----------------
 1 file changed, 63 insertions(+), 34 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index fb89b36..cdd04ab 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -238,7 +238,7 @@ class Asn1Value(object):
             raise TypeError('encoded_data must be a byte string, not %s' % type_name(encoded_data))
 
         spec = None
-        if cls.tag is not None:
+        if cls.tag is not None or cls.explicit is not None:
             spec = cls
 
         value, _ = _parse_build(encoded_data, spec=spec, spec_params=kwargs, strict=strict)
@@ -384,8 +384,10 @@ class Asn1Value(object):
                     else:
                         self.explicit = self.explicit + ((class_, tag), )
 
-            elif implicit is not None:
+            if implicit is not None:
                 class_, tag = implicit
+                if class_ in CLASS_NUM_TO_NAME_MAP:
+                    class_ = CLASS_NUM_TO_NAME_MAP[class_]
                 if class_ not in CLASS_NAME_TO_NUM_MAP:
                     raise ValueError(unwrap(
                         '''
@@ -405,7 +407,7 @@ class Asn1Value(object):
                 self.class_ = CLASS_NAME_TO_NUM_MAP[class_]
                 self.tag = tag
                 self.implicit = True
-            else:
+            elif explicit is None:
                 if class_ is not None:
                     if class_ not in CLASS_NAME_TO_NUM_MAP:
                         raise ValueError(unwrap(
@@ -1162,8 +1164,8 @@ class Choice(Asn1Value):
             if len(info) < 3:
                 info = info + ({},)
                 cls._alternatives[index] = info
-            id_ = _build_id_tuple(info[2], info[1])
-            cls._id_map[id_] = index
+            for id_ in _build_id_tuples(info[2], info[1]):
+                cls._id_map.setdefault(id_, index)
             cls._name_map[info[0]] = index
 
     def __init__(self, name=None, value=None, **kwargs):
@@ -1340,17 +1342,18 @@ class Choice(Asn1Value):
         id_ = (class_, tag)
 
         if self.explicit is not None:
-            if self.explicit[-1] != id_:
-                raise ValueError(unwrap(
-                    '''
-                    %s was explicitly tagged, but the value provided does not
-                    match the class and tag
-                    ''',
-                    type_name(self)
-                ))
+            for explicit_id in reversed(self.explicit):
+                if explicit_id != id_:
+                    raise ValueError(unwrap(
+                        '''
+                        %s was explicitly tagged, but the value provided does not
+                        match the class and tag
+                        ''',
+                        type_name(self)
+                    ))
 
-            ((class_, _, tag, _, _, _), _) = _parse(contents, len(contents))
-            id_ = (class_, tag)
+                ((class_, _, tag, _, contents, _), _) = _parse(contents, len(contents))
+                id_ = (class_, tag)
 
         if id_ in self._id_map:
             self._choice = self._id_map[id_]
@@ -1389,7 +1392,7 @@ class Choice(Asn1Value):
             A unicode string of a human-friendly representation of the class and tag
         """
 
-        return '[%s %s]' % (CLASS_NUM_TO_NAME_MAP[class_].upper(), tag)
+        return '[%s %s]' % (CLASS_NUM_TO_NAME_MAP.get(class_, 'unknown').upper(), tag)
 
     def _copy(self, other, copy_func):
         """
@@ -3940,7 +3943,7 @@ class Sequence(Asn1Value):
                 field = field + ({},)
                 cls._fields[index] = field
             cls._field_map[field[0]] = index
-            cls._field_ids.append(_build_id_tuple(field[2], field[1]))
+            cls._field_ids.append(_build_id_tuples(field[2], field[1]))
 
         if cls._oid_pair is not None:
             cls._oid_nums = (cls._field_map[cls._oid_pair[0]], cls._field_map[cls._oid_pair[1]])
@@ -4029,7 +4032,9 @@ class Sequence(Asn1Value):
         specs_different = field_spec != value_spec
         is_any = issubclass(field_spec, Any)
 
-        if issubclass(value_spec, Choice):
+        is_wrapped = specs_different and not is_any
+
+        if issubclass(value_spec, Choice) and not (is_wrapped and isinstance(value, field_spec)):
             is_asn1value = isinstance(value, Asn1Value)
             is_tuple = isinstance(value, tuple) and len(value) == 2
             is_dict = isinstance(value, dict) and len(value) == 1
@@ -4052,6 +4057,11 @@ class Sequence(Asn1Value):
             else:
                 new_value = value
 
+            if is_wrapped:
+                wrapper = field_spec(value=new_value.dump(), **field_params)
+                wrapper._parsed = (new_value, new_value.__class__, None)
+                new_value = wrapper
+
         elif isinstance(value, field_spec):
             new_value = value
             if specs_different:
@@ -4087,7 +4097,7 @@ class Sequence(Asn1Value):
             # For when the field is OctetString or OctetBitString with embedded
             # values we need to wrap the value in the field spec to get the
             # appropriate encoded value.
-            if specs_different and not is_any:
+            if is_wrapped:
                 wrapper = field_spec(value=new_value.dump(), **field_params)
                 wrapper._parsed = (new_value, new_value.__class__, None)
                 new_value = wrapper
@@ -4141,7 +4151,8 @@ class Sequence(Asn1Value):
 
                     # If the next value is optional or default, allow it to be absent
                     if field_params and ('optional' in field_params or 'default' in field_params):
-                        if self._field_ids[field] != (parts[0], parts[2]) and field_spec != Any:
+                        if (parts[0], parts[2]) not in self._field_ids[field] \
+                                and (None, None) not in self._field_ids[field]:
 
                             # See if the value is a valid choice before assuming
                             # that we have a missing optional or default value
@@ -4866,7 +4877,8 @@ class Set(Sequence):
                 field = field + ({},)
                 cls._fields[index] = field
             cls._field_map[field[0]] = index
-            cls._field_ids[_build_id_tuple(field[2], field[1])] = index
+            for id_ in _build_id_tuples(field[2], field[1]):
+                cls._field_ids[id_] = index
 
         if cls._oid_pair is not None:
             cls._oid_nums = (cls._field_map[cls._oid_pair[0]], cls._field_map[cls._oid_pair[1]])
@@ -5691,10 +5703,11 @@ def _fix_tagging(value, params):
             class_, tag = params['implicit']
         else:
             tag = params['implicit']
-            class_ = 'context'
+            class_ = 2
+        class_ = CLASS_NAME_TO_NUM_MAP.get(class_, class_)
         if value.implicit is False:
             retag = True
-        elif value.class_ != CLASS_NAME_TO_NUM_MAP[class_] or value.tag != tag:
+        elif value.class_ != class_ or value.tag != tag:
             retag = True
 
     if params.get('explicit') != value.explicit:
@@ -5705,9 +5718,9 @@ def _fix_tagging(value, params):
     return value
 
 
-def _build_id_tuple(params, spec):
+def _build_id_tuples(params, spec):
     """
-    Builds a 2-element tuple used to identify fields by grabbing the class_
+    Builds 2-element tuples used to identify fields by grabbing the class_
     and tag from an Asn1Value class and the params dict being passed to it
 
     :param params:
@@ -5717,37 +5730,50 @@ def _build_id_tuple(params, spec):
         An Asn1Value class
 
     :return:
-        A 2-element integer tuple in the form (class_, tag)
+        A list of 2-element integer tuples in the form (class_, tag) - there is
+        more than one if spec is a Choice that is not explicitly tagged
     """
 
     # Handle situations where the spec is not known at setup time
     if spec is None:
-        return (None, None)
+        return [(None, None)]
 
     required_class = spec.class_
     required_tag = spec.tag
 
     _tag_type_to_explicit_implicit(params)
 
-    if 'explicit' in params:
-        if isinstance(params['explicit'], tuple):
-            required_class, required_tag = params['explicit']
+    explicit = params.get('explicit')
+    if explicit is None and 'no_explicit' not in params:
+        explicit = spec.explicit
+
+    if explicit is not None:
+        if isinstance(explicit, tuple):
+            # The last tag of several is the outermost
+            if isinstance(explicit[-1], tuple):
+                explicit = explicit[-1]
+            required_class, required_tag = explicit
         else:
             required_class = 2
-            required_tag = params['explicit']
+            required_tag = explicit
     elif 'implicit' in params:
         if isinstance(params['implicit'], tuple):
             required_class, required_tag = params['implicit']
         else:
             required_class = 2
             required_tag = params['implicit']
+    elif issubclass(spec, Choice) and spec._alternatives:
+        output = []
+        for info in spec._alternatives:
+            output.extend(_build_id_tuples(info[2] if len(info) > 2 else {}, info[1]))
+        return output
     if required_class is not None and not isinstance(required_class, int_types):
         required_class = CLASS_NAME_TO_NUM_MAP[required_class]
 
     required_class = params.get('class_', required_class)
     required_tag = params.get('tag', required_tag)
 
-    return (required_class, required_tag)
+    return [(required_class, required_tag)]
 
 
 def _int_to_bit_tuple(value, bits):
@@ -5917,7 +5943,10 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                 explicit_header += parsed_header
                 explicit_trailer = parsed_trailer + explicit_trailer
 
-            value = _build(*info, spec=spec, spec_params={'no_explicit': True})
+            inner_params = {'no_explicit': True}
+            if spec_params and 'implicit' in spec_params:
+                inner_params['implicit'] = spec_params['implicit']
+            value = _build(*info, spec=spec, spec_params=inner_params)
             value._header = explicit_header
             value._trailer = explicit_trailer
             value.explicit = original_explicit
@@ -5928,7 +5957,7 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
             else:
                 value = spec(contents=contents)
 
-            if spec is Any:
+            if isinstance(value, Any):
                 pass
 
             elif isinstance(value, Choice):
-- 
2.43.0


From 6fa62372acb7c1d8602d708268caed7f4e54b1c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:49 +0000
Subject: [PATCH 18/90] fix: the default of a structured member adds nothing to
 a value that is present

---
 asn1crypto/core.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index cdd04ab..5e16449 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3605,14 +3605,9 @@ class Sequence(Asn1Value):
 
         Asn1Value.__init__(self, **kwargs)
 
-        check_existing = False
-        if value is None and default is not None:
-            check_existing = True
-            if self.children is None:
-                if self.contents is None:
-                    check_existing = False
-                else:
-                    self._parse_children()
+        # A default is for a value that is absent, it does not add anything to
+        # one that is present
+        if value is None and self._contents is None:
             value = default
 
         if value is not None:
@@ -3628,15 +3623,6 @@ class Sequence(Asn1Value):
                     unused_keys = set(keys)
 
                 for key in keys:
-                    # If we are setting defaults, but a real value has already
-                    # been set for the field, then skip it
-                    if check_existing:
-                        index = self._field_map[key]
-                        if index < len(self.children) and self.children[index] is not VOID:
-                            if key in unused_keys:
-                                unused_keys.remove(key)
-                            continue
-
                     if key in value:
                         self.__setitem__(key, value[key])
                         unused_keys.remove(key)
-- 
2.43.0


From 10620a6c8452bff8e02aec9c3d01df5857d4616b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:51 +0000
Subject: [PATCH 19/90] fix: every explicit tag of a value read without a
 definition is kept

---
 asn1crypto/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 5e16449..f62516b 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -6016,8 +6016,8 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
             explicit_header += parsed_header
             explicit_trailer = parsed_trailer + explicit_trailer
         value = _build(*info, spec=spec, spec_params={'no_explicit': True})
-        value._header = header + value._header
-        value._trailer += trailer or b''
+        value._header = explicit_header
+        value._trailer = explicit_trailer
         value.explicit = original_explicit
         header_set = True
 
-- 
2.43.0


From b398a1fca4ed254dce2fc7b0515c9ac52b9f1dfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:50:52 +0000
Subject: [PATCH 20/90] fix: re-encoding a null replaces its header

---
 asn1crypto/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index f62516b..0f87436 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3157,6 +3157,9 @@ class Null(Primitive):
         """
 
         self.contents = b''
+        self._header = None
+        if self._trailer != b'':
+            self._trailer = b''
 
     @property
     def native(self):
-- 
2.43.0


From 729ece7ca10bcd6e18ea01637dbab5eadaa5c648 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:54:57 +0000
Subject: [PATCH 21/90] fix: reading the default of a structured member is not
 an edit of the structure

---
 asn1crypto/core.py | 48 +++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 43 insertions(+), 5 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 0f87436..fcc7149 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4158,7 +4158,7 @@ class Sequence(Asn1Value):
                                 if 'optional' in field_params:
                                     self.children.append(VOID)
                                 else:
-                                    self.children.append(field_spec(**field_params))
+                                    self.children.append(_build_default(field_spec, field_params))
                                 field += 1
                                 again = True
                                 continue
@@ -4214,7 +4214,7 @@ class Sequence(Asn1Value):
             while index < field_len:
                 name, field_spec, field_params = self._fields[index]
                 if 'default' in field_params:
-                    self.children.append(field_spec(**field_params))
+                    self.children.append(_build_default(field_spec, field_params))
                 elif 'optional' in field_params:
                     self.children.append(VOID)
                 else:
@@ -4226,6 +4226,8 @@ class Sequence(Asn1Value):
                     ))
                 index += 1
 
+            self._child_edits = _count_edits(self.children)
+
         except (ValueError, TypeError) as e:
             self.children = None
             args = e.args[1:]
@@ -4987,7 +4989,7 @@ class Set(Sequence):
                 elif 'optional' in field_params:
                     child_map[index] = VOID
                 elif 'default' in field_params:
-                    child_map[index] = field_spec(**field_params)
+                    child_map[index] = _build_default(field_spec, field_params)
 
                 if missing:
                     raise ValueError(unwrap(
@@ -5002,6 +5004,8 @@ class Set(Sequence):
             for index in range(0, total_fields):
                 self.children.append(child_map[index])
 
+            self._child_edits = _count_edits(self.children)
+
         except (ValueError, TypeError) as e:
             self.children = None
             args = e.args[1:]
@@ -5596,8 +5600,42 @@ def _after_encode(value):
     """
 
     value._mutated = False
-    structures = [_structure_of(child) for child in value.children]
-    value._child_edits = [0 if st is None else st._edits for st in structures]
+    value._child_edits = _count_edits(value.children)
+
+
+def _count_edits(children):
+    """
+    :param children:
+        The list of children of a Sequence or SequenceOf
+
+    :return:
+        A list of integers - how often each of the children has been edited
+    """
+
+    structures = [_structure_of(child) for child in children]
+    return [0 if structure is None else structure._edits for structure in structures]
+
+
+def _build_default(spec, params):
+    """
+    Builds the default value of a field that is absent from an encoding. The
+    result is not an edit of the value it is part of.
+
+    :param spec:
+        The class of the field
+
+    :param params:
+        A dict of the parameters of the field, including the default
+
+    :return:
+        An object of the class spec
+    """
+
+    child = spec(**params)
+    structure = _structure_of(child)
+    if structure is not None:
+        structure.dump()
+    return child
 
 
 def _basic_debug(prefix, self):
-- 
2.43.0


From 8f1fdf9897847fc7404e8227d97f67e0b1337b0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:01:30 +0000
Subject: [PATCH 22/90] fix: values of types without a Python representation
 read as their contents

---
 asn1crypto/core.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index fcc7149..651014a 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1792,6 +1792,18 @@ class Primitive(Asn1Value):
         if self._trailer != b'':
             self._trailer = b''
 
+    @property
+    def native(self):
+        """
+        The native Python datatype representation of this value
+
+        :return:
+            A byte string or None - types with a better representation
+            override this
+        """
+
+        return self.contents
+
     def _reencode(self):
         """
         Replaces .contents by its DER encoding
-- 
2.43.0


From 2e8d59b778db23d7bbb563015a3f45e1ae56e02b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:38 +0000
Subject: [PATCH 23/90] fix: a relative object identifier has no merged first
 arcs

---
 asn1crypto/core.py | 79 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 78 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 651014a..a4ea6ba 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3538,11 +3538,88 @@ class UTF8String(AbstractString):
 class RelativeOid(ObjectIdentifier):
     """
     Represents an object identifier in ASN.1 as a Python unicode dotted
-    integer string
+    integer string. There is no first arc that is merged with the second one.
     """
 
     tag = 13
 
+    def set(self, value):
+        """
+        Sets the value of the object
+
+        :param value:
+            A unicode string. May be a dotted integer string, or if _map is
+            provided, one of the mapped values.
+
+        :raises:
+            ValueError - when an invalid value is passed
+        """
+
+        if not isinstance(value, str_cls):
+            raise TypeError(unwrap(
+                '''
+                %s value must be a unicode string, not %s
+                ''',
+                type_name(self),
+                type_name(value)
+            ))
+
+        if self._map is not None:
+            if value in self._reverse_map:
+                value = self._reverse_map[value]
+
+        if not _OID_RE.match(value):
+            raise ValueError(unwrap(
+                '''
+                %s value must be a dotted integer%s, not %s
+                ''',
+                type_name(self),
+                '' if self._map is None else ', or a name from the _map',
+                repr(value)
+            ))
+
+        contents = b''
+        for part in value.split('.'):
+            part = int(part)
+            encoded_part = chr_cls(0x7F & part)
+            part = part >> 7
+            while part > 0:
+                encoded_part = chr_cls(0x80 | (0x7F & part)) + encoded_part
+                part = part >> 7
+            contents += encoded_part
+
+        self.contents = contents
+        self._native = None
+        self._dotted = None
+        self._header = None
+        if self._trailer != b'':
+            self._trailer = b''
+
+    @property
+    def dotted(self):
+        """
+        :return:
+            A unicode string of the relative object identifier in dotted
+            notation, thus ignoring any mapped value
+        """
+
+        if self._dotted is None:
+            output = []
+
+            part = 0
+            for byte in self.contents:
+                if _PY2:
+                    byte = ord(byte)
+                part = part * 128
+                part += byte & 127
+                # Last byte in subidentifier has the eighth bit set to 0
+                if byte & 0x80 == 0:
+                    output.append(str_cls(part))
+                    part = 0
+
+            self._dotted = '.'.join(output)
+        return self._dotted
+
 
 class Sequence(Asn1Value):
     """
-- 
2.43.0


From 3ff5b8e9ad4e85ba6da29b697bc65b0986b10901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:12:59 +0000
Subject: [PATCH 24/90] fix: re-encoding a certificate status replaces its
 header

---
 asn1crypto/ocsp.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/ocsp.py b/asn1crypto/ocsp.py
index 91c7fbf..b8f7caf 100644
--- a/asn1crypto/ocsp.py
+++ b/asn1crypto/ocsp.py
@@ -338,7 +338,7 @@ class StatusGood(Null):
                 repr(value)
             ))
 
-        self.contents = b''
+        Null.set(self, None)
 
     @property
     def native(self):
@@ -363,7 +363,7 @@ class StatusUnknown(Null):
                 repr(value)
             ))
 
-        self.contents = b''
+        Null.set(self, None)
 
     @property
     def native(self):
-- 
2.43.0


From 81ff6cce2b7aa3a4c11672088a0be94e9767ba53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:13:59 +0000
Subject: [PATCH 25/90] fix: the explicit tag of a value of any type is
 required, not only skipped

---
 asn1crypto/core.py | 19 ++++++++++++++++++-
 1 file changed, 18 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index a4ea6ba..017cb81 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -6137,12 +6137,29 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
         original_value = Asn1Value(contents=contents, **spec_params)
         original_explicit = original_value.explicit
 
+        parsed_class = class_
+        parsed_method = method
+        parsed_tag = tag
         to_parse = contents
         explicit_header = header
         explicit_trailer = trailer or b''
         for expected_class, expected_tag in reversed(original_explicit):
+            if (parsed_class, parsed_method, parsed_tag) != (expected_class, 1, expected_tag):
+                raise ValueError(unwrap(
+                    '''
+                    Error parsing %s - explicit tag should have been %s class,
+                    %s method, tag %s, but %s class, %s method, tag %s was found
+                    ''',
+                    type_name(original_value),
+                    CLASS_NUM_TO_NAME_MAP.get(expected_class),
+                    METHOD_NUM_TO_NAME_MAP.get(1),
+                    expected_tag,
+                    CLASS_NUM_TO_NAME_MAP.get(parsed_class),
+                    METHOD_NUM_TO_NAME_MAP.get(parsed_method),
+                    parsed_tag
+                ))
             info, _ = _parse(to_parse, len(to_parse))
-            _, _, _, parsed_header, to_parse, parsed_trailer = info
+            parsed_class, parsed_method, parsed_tag, parsed_header, to_parse, parsed_trailer = info
             explicit_header += parsed_header
             explicit_trailer = parsed_trailer + explicit_trailer
         value = _build(*info, spec=spec, spec_params={'no_explicit': True})
-- 
2.43.0


From 6c98b8dfd7f36dcf5bb888c1a19980415d32349d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:05 +0000
Subject: [PATCH 26/90] fix: re-encoding a Windows-1252 teletex string keeps
 its characters; sets without a child spec can be built

---
 asn1crypto/core.py | 11 +++++++++++
 asn1crypto/x509.py | 16 ++++++++++++++++
 2 files changed, 27 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 017cb81..2bbd699 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4600,6 +4600,17 @@ class SequenceOf(Asn1Value):
             An object of type _child_spec
         """
 
+        if self._child_spec is None:
+            if isinstance(value, Asn1Value):
+                return value
+            raise ValueError(unwrap(
+                '''
+                Can not set a native python value to %s, which has no
+                _child_spec - value must be an instance of Asn1Value
+                ''',
+                type_name(self)
+            ))
+
         if isinstance(value, self._child_spec):
             new_value = value
 
diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 61063f1..490889f 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -479,6 +479,22 @@ class NotReallyTeletexString(TeletexString):
             self._unicode = self._merge_chunks().decode(self._decoding_encoding)
         return self._unicode
 
+    def _reencode(self):
+        """
+        Replaces .contents by its DER encoding. The characters that were read
+        may have no, or another, encoding in ITU T.61, so the bytes are kept.
+        """
+
+        value = self.__unicode__()
+        self.contents = self._merge_chunks()
+        self._unicode = value
+        self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
+        if self._trailer != b'':
+            self._trailer = b''
+
 
 @contextmanager
 def strict_teletex():
-- 
2.43.0


From 8e26165dbd1768752575da87f2f20b7bb285b6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:18:35 +0000
Subject: [PATCH 27/90] fix: keys of an algorithm without a registered name can
 be read

---
 asn1crypto/keys.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index d0c647f..fc2b469 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -752,7 +752,7 @@ class PrivateKeyInfo(Sequence):
             'x448': OctetString,
             'ed25519': OctetString,
             'ed448': OctetString,
-        }[algorithm]
+        }.get(algorithm)
 
     _spec_callbacks = {
         'private_key': _private_key_spec
@@ -1127,7 +1127,7 @@ class PublicKeyInfo(Sequence):
             'x448': (OctetBitString, None),
             'ed25519': (OctetBitString, None),
             'ed448': (OctetBitString, None),
-        }[algorithm]
+        }.get(algorithm)
 
     _spec_callbacks = {
         'public_key': _public_key_spec
-- 
2.43.0


From 26d6df5193bb7ccd6462f9b372d188452eb8e505 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:23:47 +0000
Subject: [PATCH 28/90] fix: malformed IP addresses and masks are refused, and
 the address text is canonical

---
 asn1crypto/x509.py | 42 ++++++++++++++++++++++++++++++++++++------
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 490889f..2079cb1 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -328,14 +328,15 @@ class IPAddress(OctetString):
         if has_cidr:
             parts = value.split('/', 1)
             value = parts[0]
-            cidr = int(parts[1])
-            if cidr < 0:
+            if re.match('^[0-9]+\\Z', parts[1]) is None:
                 raise ValueError(unwrap(
                     '''
-                    %s value contains a CIDR range less than 0
+                    %s value contains a CIDR range that is not a non-negative
+                    integer
                     ''',
                     type_name(self)
                 ))
+            cidr = int(parts[1])
 
         if value.find(':') != -1:
             family = socket.AF_INET6
@@ -367,10 +368,24 @@ class IPAddress(OctetString):
             cidr_bytes = int_to_bytes(int(cidr_mask, 2))
             cidr_bytes = (b'\x00' * ((cidr_size // 8) - len(cidr_bytes))) + cidr_bytes
 
-        self._native = original_value
-        self.contents = inet_pton(family, value) + cidr_bytes
+        try:
+            address_bytes = inet_pton(family, value)
+        except (socket.error, OSError, ValueError):
+            raise ValueError(unwrap(
+                '''
+                %s value is not an IP address: %s
+                ''',
+                type_name(self),
+                repr(original_value)
+            ))
+
+        self._native = None
+        self.contents = address_bytes + cidr_bytes
         self._bytes = self.contents
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
@@ -399,9 +414,24 @@ class IPAddress(OctetString):
                 value = inet_ntop(socket.AF_INET, byte_string[0:4])
                 if byte_len > 4:
                     cidr_int = int_from_bytes(byte_string[4:])
+            else:
+                raise ValueError(unwrap(
+                    '''
+                    %s value must be 4, 8, 16 or 32 bytes long, not %d
+                    ''',
+                    type_name(self),
+                    byte_len
+                ))
             if cidr_int is not None:
-                cidr_bits = '{0:b}'.format(cidr_int)
+                cidr_bits = '{0:b}'.format(cidr_int).zfill(byte_len * 4)
                 cidr = len(cidr_bits.rstrip('0'))
+                if '0' in cidr_bits[0:cidr]:
+                    raise ValueError(unwrap(
+                        '''
+                        %s value has a mask that is not a CIDR range
+                        ''',
+                        type_name(self)
+                    ))
                 value = value + '/' + str_cls(cidr)
             self._native = value
         return self._native
-- 
2.43.0


From 62b06b0fa07ff2dbf1eac7e3477dcec400371885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:05 +0000
Subject: [PATCH 29/90] fix: re-encoding a URI, DNS name or mail address keeps
 its octets

---
 asn1crypto/core.py | 17 +++++++++++++++++
 asn1crypto/x509.py | 16 ----------------
 2 files changed, 17 insertions(+), 16 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 2bbd699..b13883f 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1924,6 +1924,23 @@ class AbstractString(Constructable, Primitive):
             self._unicode = self._merge_chunks().decode(self._encoding)
         return self._unicode
 
+    def _reencode(self):
+        """
+        Replaces .contents by its DER encoding. The characters that were read
+        may have no, or another, encoding in the character set of the type, so
+        the bytes are kept.
+        """
+
+        value = self.__unicode__()
+        self.contents = self._merge_chunks()
+        self._unicode = value
+        self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
+        if self._trailer != b'':
+            self._trailer = b''
+
     def _copy(self, other, copy_func):
         """
         Copies the contents of another AbstractString object to itself
diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 2079cb1..5594830 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -509,22 +509,6 @@ class NotReallyTeletexString(TeletexString):
             self._unicode = self._merge_chunks().decode(self._decoding_encoding)
         return self._unicode
 
-    def _reencode(self):
-        """
-        Replaces .contents by its DER encoding. The characters that were read
-        may have no, or another, encoding in ITU T.61, so the bytes are kept.
-        """
-
-        value = self.__unicode__()
-        self.contents = self._merge_chunks()
-        self._unicode = value
-        self._header = None
-        if self._indefinite:
-            self._indefinite = False
-            self.method = 0
-        if self._trailer != b'':
-            self._trailer = b''
-
 
 @contextmanager
 def strict_teletex():
-- 
2.43.0


From 38ec7e0680129a8054c8d0a6f6e1a75aa87a6f2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:07 +0000
Subject: [PATCH 30/90] fix: setting a DNS name, URI, mail or IP address read
 in constructed form

---
 asn1crypto/x509.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 5594830..850aa48 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -117,6 +117,9 @@ class DNSName(IA5String):
         self._unicode = value
         self.contents = encoded_value
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
@@ -143,6 +146,9 @@ class URI(IA5String):
         self._unicode = value
         self.contents = iri_to_uri(value)
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
@@ -234,6 +240,9 @@ class EmailAddress(IA5String):
         self._unicode = value
         self.contents = encoded_value
         self._header = None
+        if self._indefinite:
+            self._indefinite = False
+            self.method = 0
         if self._trailer != b'':
             self._trailer = b''
 
-- 
2.43.0


From 990cf3a87270d6e6284455a5000f47292433ed88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:47:59 +0000
Subject: [PATCH 31/90] fix: ObjectIdentifier.map() works before the first
 instance of the type exists

---
 asn1crypto/core.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index b13883f..e7e8001 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3229,6 +3229,10 @@ class ObjectIdentifier(Primitive, ValueMap):
             A mapped unicode string
         """
 
+        if cls not in _SETUP_CLASSES:
+            # Creating an instance sets the class up
+            cls()
+
         if cls._map is None:
             raise ValueError(unwrap(
                 '''
-- 
2.43.0


From 2b91a1abafd1c64852fdb7714d480f6b4e73b991 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:02 +0000
Subject: [PATCH 32/90] fix: identifiers registered by the pdf and tsp modules
 are usable by types used before

---
 asn1crypto/core.py | 17 +++++++++++++++++
 asn1crypto/pdf.py  | 10 +++++-----
 asn1crypto/tsp.py  |  8 ++++----
 3 files changed, 26 insertions(+), 9 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index e7e8001..7014867 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -3213,6 +3213,23 @@ class ObjectIdentifier(Primitive, ValueMap):
     # A unicode string of the dotted form of the object identifier
     _dotted = None
 
+    @classmethod
+    def _register(cls, dotted, name):
+        """
+        Adds an entry to the _map, also of a class that has been used before
+
+        :param dotted:
+            A dotted unicode string OID
+
+        :param name:
+            A unicode string of the name
+        """
+
+        with _SETUP_LOCK:
+            cls._map[dotted] = name
+            if cls._reverse_map is not None:
+                cls._reverse_map[name] = dotted
+
     @classmethod
     def map(cls, value):
         """
diff --git a/asn1crypto/pdf.py b/asn1crypto/pdf.py
index a9bad4d..a593717 100644
--- a/asn1crypto/pdf.py
+++ b/asn1crypto/pdf.py
@@ -73,12 +73,12 @@ class SetOfRevocationInfoArchival(SetOf):
     _child_spec = RevocationInfoArchival
 
 
-ExtensionId._map['1.2.840.113583.1.1.9.2'] = 'adobe_archive_rev_info'
-ExtensionId._map['1.2.840.113583.1.1.9.1'] = 'adobe_timestamp'
-ExtensionId._map['1.2.840.113583.1.1.10'] = 'adobe_ppklite_credential'
+ExtensionId._register('1.2.840.113583.1.1.9.2', 'adobe_archive_rev_info')
+ExtensionId._register('1.2.840.113583.1.1.9.1', 'adobe_timestamp')
+ExtensionId._register('1.2.840.113583.1.1.10', 'adobe_ppklite_credential')
 Extension._oid_specs['adobe_archive_rev_info'] = AdobeArchiveRevInfo
 Extension._oid_specs['adobe_timestamp'] = AdobeTimestamp
 Extension._oid_specs['adobe_ppklite_credential'] = Null
-KeyPurposeId._map['1.2.840.113583.1.1.5'] = 'pdf_signing'
-CMSAttributeType._map['1.2.840.113583.1.1.8'] = 'adobe_revocation_info_archival'
+KeyPurposeId._register('1.2.840.113583.1.1.5', 'pdf_signing')
+CMSAttributeType._register('1.2.840.113583.1.1.8', 'adobe_revocation_info_archival')
 CMSAttribute._oid_specs['adobe_revocation_info_archival'] = SetOfRevocationInfoArchival
diff --git a/asn1crypto/tsp.py b/asn1crypto/tsp.py
index f006da9..0017706 100644
--- a/asn1crypto/tsp.py
+++ b/asn1crypto/tsp.py
@@ -302,9 +302,9 @@ class SetOfSigningCertificatesV2(SetOf):
 EncapsulatedContentInfo._oid_specs['tst_info'] = TSTInfo
 EncapsulatedContentInfo._oid_specs['timestamped_data'] = TimeStampedData
 ContentInfo._oid_specs['timestamped_data'] = TimeStampedData
-ContentType._map['1.2.840.113549.1.9.16.1.4'] = 'tst_info'
-ContentType._map['1.2.840.113549.1.9.16.1.31'] = 'timestamped_data'
-CMSAttributeType._map['1.2.840.113549.1.9.16.2.12'] = 'signing_certificate'
+ContentType._register('1.2.840.113549.1.9.16.1.4', 'tst_info')
+ContentType._register('1.2.840.113549.1.9.16.1.31', 'timestamped_data')
+CMSAttributeType._register('1.2.840.113549.1.9.16.2.12', 'signing_certificate')
 CMSAttribute._oid_specs['signing_certificate'] = SetOfSigningCertificates
-CMSAttributeType._map['1.2.840.113549.1.9.16.2.47'] = 'signing_certificate_v2'
+CMSAttributeType._register('1.2.840.113549.1.9.16.2.47', 'signing_certificate_v2')
 CMSAttribute._oid_specs['signing_certificate_v2'] = SetOfSigningCertificatesV2
-- 
2.43.0


From e3659c92270377272d3cde818d3b49f0e162a752 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:48:06 +0000
Subject: [PATCH 33/90] fix: a width that is refused is not used afterwards

---
 asn1crypto/core.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 7014867..b88f184 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2902,10 +2902,15 @@ class IntegerOctetString(Constructable, Castable, Primitive):
             An integer byte width to encode the integer to
         """
 
+        previous = self._encoded_width
         self._encoded_width = width
         # Make sure the encoded value is up-to-date with the proper width
-        if self.contents is not None and len(self.contents) != width:
-            self.set(self.native)
+        if self.contents is not None and len(self._merge_chunks()) != width:
+            try:
+                self.set(self.native)
+            except (OverflowError, ValueError):
+                self._encoded_width = previous
+                raise
 
 
 class ParsableOctetString(Constructable, Castable, Primitive):
-- 
2.43.0


From 9e7c530dc0dc63f839ee7650a630b568a7b54a77 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:28 +0000
Subject: [PATCH 34/90] fix: a refused integer leaves an integer octet string
 unchanged

---
 asn1crypto/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index b88f184..5ad3fbe 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2859,8 +2859,8 @@ class IntegerOctetString(Constructable, Castable, Primitive):
                 value
             ))
 
-        self._native = value
         self.contents = int_to_bytes(value, signed=False, width=self._encoded_width)
+        self._native = value
         self._header = None
         if self._indefinite:
             self._indefinite = False
-- 
2.43.0


From 265213cdaeaf5d15959ad801e19ae64bde2133ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:32 +0000
Subject: [PATCH 35/90] fix: a refused text leaves a string unchanged

---
 asn1crypto/core.py | 2 +-
 asn1crypto/x509.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 5ad3fbe..23ed253 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1903,8 +1903,8 @@ class AbstractString(Constructable, Primitive):
                 type_name(value)
             ))
 
-        self._unicode = value
         self.contents = value.encode(self._encoding)
+        self._unicode = value
         self._header = None
         if self._indefinite:
             self._indefinite = False
diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 850aa48..ca12c29 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -143,8 +143,8 @@ class URI(IA5String):
                 type_name(value)
             ))
 
-        self._unicode = value
         self.contents = iri_to_uri(value)
+        self._unicode = value
         self._header = None
         if self._indefinite:
             self._indefinite = False
-- 
2.43.0


From 6be1554b3f51b1eeaf8ebb81cc5ee3b2f6f523a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:02:04 +0000
Subject: [PATCH 36/90] fix: a time offset of 60 or more minutes past the hour
 is refused

---
 asn1crypto/core.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 23ed253..441ca29 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -5448,7 +5448,7 @@ class UTCTime(AbstractTime):
             (?:
                 (?P<dsign>[-+])
                 (?P<dhour>\d{2})
-                (?P<dminute>\d{2})
+                (?P<dminute>[0-5]\d)
             )
         )
         \Z
@@ -5544,7 +5544,7 @@ class GeneralizedTime(AbstractTime):
             (?:
                 (?P<dsign>[-+])
                 (?P<dhour>\d{2})
-                (?P<dminute>\d{2})?
+                (?P<dminute>[0-5]\d)?
             )
         )?
         \Z
-- 
2.43.0


From fdadc466547e9edddf46c3b85e90de8ffbf2596f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:47:38 +0000
Subject: [PATCH 37/90] fix: pickling keeps the tagging of a value

---
 asn1crypto/core.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 441ca29..b0be970 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -171,13 +171,13 @@ def load(encoded_data, strict=False):
     return Asn1Value.load(encoded_data, strict=strict)
 
 
-def unpickle_helper(asn1crypto_cls, der_bytes):
+def unpickle_helper(asn1crypto_cls, der_bytes, tagging=None):
     """
     Helper function to integrate with pickle.
 
     Note that this must be an importable top-level function.
     """
-    return asn1crypto_cls.load(der_bytes)
+    return asn1crypto_cls.load(der_bytes, **(tagging or {}))
 
 
 class Asn1Value(object):
@@ -503,7 +503,25 @@ class Asn1Value(object):
         """
         Permits pickling Asn1Value objects using their DER representation.
         """
-        return unpickle_helper, (self.__class__, self.dump())
+        return unpickle_helper, (self.__class__, self.dump(), self._tagging())
+
+    def _tagging(self):
+        """
+        :return:
+            A dict of the .load() parameters for the tagging this object has in
+            addition to the tagging of its class
+        """
+
+        cls = self.__class__
+        tagging = {}
+        if self.explicit is None:
+            if cls.explicit is not None:
+                tagging['no_explicit'] = True
+        elif self.explicit != cls.explicit:
+            tagging['explicit'] = self.explicit[len(cls.explicit or ()):]
+        if self.implicit and (self.class_, self.tag) != (cls.class_, cls.tag):
+            tagging['implicit'] = (self.class_, self.tag)
+        return tagging
 
     def _new_instance(self):
         """
-- 
2.43.0


From 44aefe35408ffd77215dcedc05162722e7807e98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:48:13 +0000
Subject: [PATCH 38/90] fix: copies keep the header a value was loaded with

---
 asn1crypto/core.py | 28 ++++++++++++++++++++++++++++
 1 file changed, 28 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index b0be970..a6e39fe 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -548,6 +548,7 @@ class Asn1Value(object):
 
         new_obj = self._new_instance()
         new_obj._copy(self, copy.copy)
+        new_obj._copy_header(self)
         return new_obj
 
     def __deepcopy__(self, memo):
@@ -564,6 +565,7 @@ class Asn1Value(object):
         new_obj = self._new_instance()
         memo[id(self)] = new_obj
         new_obj._copy(self, copy.deepcopy)
+        new_obj._copy_header(self)
         return new_obj
 
     def copy(self):
@@ -634,6 +636,20 @@ class Asn1Value(object):
         self.contents = other.contents
         self._native = copy_func(other._native)
 
+    def _copy_header(self, other):
+        """
+        Copies the header and trailer of another object with the same tagging,
+        so that values that have not been edited dump to the same bytes. Values
+        using the indefinite-length method are re-encoded instead.
+
+        :param other:
+            Another instance of the same class
+        """
+
+        if not _is_indefinite(other):
+            self._header = other._header
+            self._trailer = other._trailer
+
     def debug(self, nest_level=1):
         """
         Show the binary data and parsed data in a tree structure
@@ -1429,6 +1445,18 @@ class Choice(Asn1Value):
         self._name = other._name
         self._parsed = copy_func(other._parsed)
 
+    def _copy_header(self, other):
+        """
+        Copies the header and trailer of another Choice object, along with the
+        contents they were made for
+
+        :param other:
+            Another instance of the same class
+        """
+
+        super(Choice, self)._copy_header(other)
+        self._contents = other._contents
+
     def dump(self, force=False):
         """
         Encodes the value using DER
-- 
2.43.0


From 2e4ca2c123d719d8383673c5c361ce84e7411ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:50:17 +0000
Subject: [PATCH 39/90] fix: pickling and copying keep what a value was parsed
 as

---
 asn1crypto/core.py | 62 +++++++++++++++++++++++++++++++++++++++-------
 1 file changed, 53 insertions(+), 9 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index a6e39fe..307af67 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -171,13 +171,13 @@ def load(encoded_data, strict=False):
     return Asn1Value.load(encoded_data, strict=strict)
 
 
-def unpickle_helper(asn1crypto_cls, der_bytes, tagging=None):
+def unpickle_helper(asn1crypto_cls, der_bytes, load_params=None):
     """
     Helper function to integrate with pickle.
 
     Note that this must be an importable top-level function.
     """
-    return asn1crypto_cls.load(der_bytes, **(tagging or {}))
+    return asn1crypto_cls.load(der_bytes, **(load_params or {}))
 
 
 class Asn1Value(object):
@@ -503,9 +503,18 @@ class Asn1Value(object):
         """
         Permits pickling Asn1Value objects using their DER representation.
         """
-        return unpickle_helper, (self.__class__, self.dump(), self._tagging())
+        return unpickle_helper, (self.__class__, self.dump(), self._load_params()), self._pickle_state()
 
-    def _tagging(self):
+    def _pickle_state(self):
+        """
+        :return:
+            None or a dict of the attributes that have to be pickled alongside
+            the DER representation
+        """
+
+        return None
+
+    def _load_params(self):
         """
         :return:
             A dict of the .load() parameters for the tagging this object has in
@@ -513,15 +522,15 @@ class Asn1Value(object):
         """
 
         cls = self.__class__
-        tagging = {}
+        params = {}
         if self.explicit is None:
             if cls.explicit is not None:
-                tagging['no_explicit'] = True
+                params['no_explicit'] = True
         elif self.explicit != cls.explicit:
-            tagging['explicit'] = self.explicit[len(cls.explicit or ()):]
+            params['explicit'] = self.explicit[len(cls.explicit or ()):]
         if self.implicit and (self.class_, self.tag) != (cls.class_, cls.tag):
-            tagging['implicit'] = (self.class_, self.tag)
-        return tagging
+            params['implicit'] = (self.class_, self.tag)
+        return params
 
     def _new_instance(self):
         """
@@ -1092,6 +1101,17 @@ class Any(Asn1Value):
         self._header = b''
         self.contents = value.dump()
 
+    def _pickle_state(self):
+        """
+        :return:
+            None or a dict of the attributes that have to be pickled alongside
+            the DER representation
+        """
+
+        if self._parsed is None:
+            return None
+        return {'_parsed': self._parsed}
+
     def _copy(self, other, copy_func):
         """
         Copies the contents of another Any object to itself
@@ -3077,6 +3097,17 @@ class ParsableOctetString(Constructable, Castable, Primitive):
         structure = _structure_of(self)
         return structure is not None and (structure._is_mutated() or structure._edits != self._parsed_edits)
 
+    def _pickle_state(self):
+        """
+        :return:
+            None or a dict of the attributes that have to be pickled alongside
+            the DER representation
+        """
+
+        if self._parsed is None:
+            return None
+        return {'_parsed': self._parsed}
+
     def _copy(self, other, copy_func):
         """
         Copies the contents of another ParsableOctetString object to itself
@@ -4973,6 +5004,18 @@ class SequenceOf(Asn1Value):
                 raise e
         return self._native
 
+    def _load_params(self):
+        """
+        :return:
+            A dict of the .load() parameters for the tagging and _child_spec
+            this object has in addition to what its class defines
+        """
+
+        params = super(SequenceOf, self)._load_params()
+        if self._child_spec != self.__class__._child_spec:
+            params['spec'] = self._child_spec
+        return params
+
     def _copy(self, other, copy_func):
         """
         Copies the contents of another SequenceOf object to itself
@@ -4986,6 +5029,7 @@ class SequenceOf(Asn1Value):
         """
 
         super(SequenceOf, self)._copy(other, copy_func)
+        self._child_spec = other._child_spec
         if self.children is not None:
             self.children = []
             for child in other.children:
-- 
2.43.0


From fd379dab2be9ec142928cd061c3441cbc69252cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:54:59 +0000
Subject: [PATCH 40/90] fix: an explicit tag holds exactly one value

---
 asn1crypto/core.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 307af67..5b97bf4 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -6195,7 +6195,17 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                 explicit_header += parsed_header
                 explicit_trailer = parsed_trailer + explicit_trailer
 
-                info, _ = _parse(to_parse, len(to_parse))
+                info, parsed_len = _parse(to_parse, len(to_parse))
+                if parsed_len != len(to_parse):
+                    raise ValueError(unwrap(
+                        '''
+                        Error parsing %s - explicitly-tagged contents should have
+                        been a single value, but %d bytes of trailing data were
+                        found
+                        ''',
+                        type_name(value),
+                        len(to_parse) - parsed_len
+                    ))
                 parsed_class, parsed_method, parsed_tag, parsed_header, to_parse, parsed_trailer = info
 
             # The chosen alternative of a Choice has the innermost header
-- 
2.43.0


From be69b7e2f4ac5aebf612a83d0588c1eebcfa49a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:57:02 +0000
Subject: [PATCH 41/90] fix: an explicit tag of an untyped value holds exactly
 one value

---
 asn1crypto/core.py | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 5b97bf4..21ca370 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -6092,6 +6092,36 @@ _UNIVERSAL_SPECS = {
 }
 
 
+def _parse_explicit(value, contents):
+    """
+    Parses the contents of an explicit tag, which must be a single value
+
+    :param value:
+        The Asn1Value object that is explicitly tagged
+
+    :param contents:
+        A byte string of the contents of the explicit tag
+
+    :raises:
+        ValueError - when there is more than one value
+
+    :return:
+        A tuple of the parts of the encoded value, from _parse()
+    """
+
+    info, parsed_len = _parse(contents, len(contents))
+    if parsed_len != len(contents):
+        raise ValueError(unwrap(
+            '''
+            Error parsing %s - explicitly-tagged contents should have been a
+            single value, but %d bytes of trailing data were found
+            ''',
+            type_name(value),
+            len(contents) - parsed_len
+        ))
+    return info
+
+
 def _build(class_, method, tag, header, contents, trailer, spec=None, spec_params=None, nested_spec=None):
     """
     Builds an Asn1Value object generically, or using a spec with optional params
@@ -6195,17 +6225,7 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                 explicit_header += parsed_header
                 explicit_trailer = parsed_trailer + explicit_trailer
 
-                info, parsed_len = _parse(to_parse, len(to_parse))
-                if parsed_len != len(to_parse):
-                    raise ValueError(unwrap(
-                        '''
-                        Error parsing %s - explicitly-tagged contents should have
-                        been a single value, but %d bytes of trailing data were
-                        found
-                        ''',
-                        type_name(value),
-                        len(to_parse) - parsed_len
-                    ))
+                info = _parse_explicit(value, to_parse)
                 parsed_class, parsed_method, parsed_tag, parsed_header, to_parse, parsed_trailer = info
 
             # The chosen alternative of a Choice has the innermost header
@@ -6312,7 +6332,7 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                     METHOD_NUM_TO_NAME_MAP.get(parsed_method),
                     parsed_tag
                 ))
-            info, _ = _parse(to_parse, len(to_parse))
+            info = _parse_explicit(original_value, to_parse)
             parsed_class, parsed_method, parsed_tag, parsed_header, to_parse, parsed_trailer = info
             explicit_header += parsed_header
             explicit_trailer = parsed_trailer + explicit_trailer
-- 
2.43.0


From 3ab99a36793cccafcc6c708764579c79ba4f5140 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:59:44 +0000
Subject: [PATCH 42/90] fix: a refused assignment of a member with invalid
 contents leaves the object unchanged

---
 asn1crypto/core.py | 23 +++++++++++++++++------
 1 file changed, 17 insertions(+), 6 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 21ca370..e822038 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4021,10 +4021,12 @@ class Sequence(Asn1Value):
                 type_name(self)
             ))
 
-        self.children[key] = new_value
-
+        # The native value is obtained first, since doing so raises an exception
+        # for invalid contents, which must leave this object unchanged
         if self._native is not None:
-            self._native[self._fields[key][0]] = self.children[key].native
+            self._native[self._fields[key][0]] = new_value.native
+
+        self.children[key] = new_value
         self._mutated = True
 
     def __delitem__(self, key):
@@ -4817,6 +4819,11 @@ class SequenceOf(Asn1Value):
 
         new_value = self._make_value(value)
 
+        # The native value is obtained first, since doing so raises an exception
+        # for invalid contents, which must leave this object unchanged
+        if self._native is not None:
+            native = new_value.native
+
         # If adding at the end, create a space for the new value
         if key == len(self.children):
             self.children.append(None)
@@ -4826,7 +4833,7 @@ class SequenceOf(Asn1Value):
         self.children[key] = new_value
 
         if self._native is not None:
-            self._native[key] = self.children[key].native
+            self._native[key] = native
 
         self._mutated = True
 
@@ -4903,10 +4910,14 @@ class SequenceOf(Asn1Value):
         if self.children is None:
             self._parse_children()
 
-        self.children.append(self._make_value(value))
+        new_value = self._make_value(value)
 
+        # The native value is obtained first, since doing so raises an exception
+        # for invalid contents, which must leave this object unchanged
         if self._native is not None:
-            self._native.append(self.children[-1].native)
+            self._native.append(new_value.native)
+
+        self.children.append(new_value)
 
         self._mutated = True
 
-- 
2.43.0


From cd853382cec328de2ae8ccb97eca627b08616386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:11:50 +0000
Subject: [PATCH 43/90] fix: a private key that does not fit the curve is
 refused without changing the object

---
 asn1crypto/keys.py | 90 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 64 insertions(+), 26 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index fc2b469..b762921 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -67,6 +67,25 @@ def _byte_len(value):
     return len(int_to_bytes(value))
 
 
+def _member_state(value):
+    """
+    Obtains what is needed to restore the members of a Sequence after a value
+    assigned to one of them has been refused
+
+    :param value:
+        A Sequence object
+
+    :return:
+        A 3-element tuple of the children, _native and _mutated attributes
+    """
+
+    if value.children is None:
+        value._parse_children()
+
+    native = None if value._native is None else value._native.copy()
+    return (list(value.children), native, value._mutated)
+
+
 class OtherPrimeInfo(Sequence):
     """
     Source: https://tools.ietf.org/html/rfc3447#page-46
@@ -598,21 +617,28 @@ class ECPrivateKey(Sequence):
 
     # This is necessary to ensure the private_key IntegerOctetString is encoded properly
     def __setitem__(self, key, value):
-        res = super(ECPrivateKey, self).__setitem__(key, value)
+        previous = _member_state(self)
+        try:
+            res = super(ECPrivateKey, self).__setitem__(key, value)
+
+            if key == 'private_key':
+                if self._key_size is None:
+                    # Infer the key_size from the existing private key if possible
+                    pkey_contents = self['private_key'].contents
+                    if isinstance(pkey_contents, byte_cls) and len(pkey_contents) > 1:
+                        self.set_key_size(len(self['private_key'].contents))
 
-        if key == 'private_key':
-            if self._key_size is None:
-                # Infer the key_size from the existing private key if possible
-                pkey_contents = self['private_key'].contents
-                if isinstance(pkey_contents, byte_cls) and len(pkey_contents) > 1:
-                    self.set_key_size(len(self['private_key'].contents))
+                elif self._key_size is not None:
+                    self._update_key_size()
 
-            elif self._key_size is not None:
-                self._update_key_size()
+            elif key == 'parameters' and isinstance(self['parameters'], ECDomainParameters) and \
+                    self['parameters'].name != 'implicit_ca':
+                self.set_key_size(self['parameters'].key_size)
 
-        elif key == 'parameters' and isinstance(self['parameters'], ECDomainParameters) and \
-                self['parameters'].name != 'implicit_ca':
-            self.set_key_size(self['parameters'].key_size)
+        except Exception:
+            # A private key that does not fit the curve is refused
+            self.children, self._native, self._mutated = previous
+            raise
 
         return res
 
@@ -624,8 +650,13 @@ class ECPrivateKey(Sequence):
             An integer byte length to encode the private_key to
         """
 
+        previous = self._key_size
         self._key_size = key_size
-        self._update_key_size()
+        try:
+            self._update_key_size()
+        except Exception:
+            self._key_size = previous
+            raise
 
     def _update_key_size(self):
         """
@@ -834,19 +865,26 @@ class PrivateKeyInfo(Sequence):
     # This is necessary to ensure any contained ECPrivateKey is the
     # correct size
     def __setitem__(self, key, value):
-        res = super(PrivateKeyInfo, self).__setitem__(key, value)
-
-        algorithm = self['private_key_algorithm']
-
-        # When possible, use the parameter info to make sure the private key encoding
-        # retains any necessary leading bytes, instead of them being dropped
-        if (key == 'private_key_algorithm' or key == 'private_key') and \
-                algorithm['algorithm'].native == 'ec' and \
-                isinstance(algorithm['parameters'], ECDomainParameters) and \
-                algorithm['parameters'].name != 'implicit_ca' and \
-                isinstance(self['private_key'], ParsableOctetString) and \
-                isinstance(self['private_key'].parsed, ECPrivateKey):
-            self['private_key'].parsed.set_key_size(algorithm['parameters'].key_size)
+        previous = _member_state(self)
+        try:
+            res = super(PrivateKeyInfo, self).__setitem__(key, value)
+
+            algorithm = self['private_key_algorithm']
+
+            # When possible, use the parameter info to make sure the private key encoding
+            # retains any necessary leading bytes, instead of them being dropped
+            if (key == 'private_key_algorithm' or key == 'private_key') and \
+                    algorithm['algorithm'].native == 'ec' and \
+                    isinstance(algorithm['parameters'], ECDomainParameters) and \
+                    algorithm['parameters'].name != 'implicit_ca' and \
+                    isinstance(self['private_key'], ParsableOctetString) and \
+                    isinstance(self['private_key'].parsed, ECPrivateKey):
+                self['private_key'].parsed.set_key_size(algorithm['parameters'].key_size)
+
+        except Exception:
+            # A private key that does not fit the curve is refused
+            self.children, self._native, self._mutated = previous
+            raise
 
         return res
 
-- 
2.43.0


From 12cec7d629d620335e1b624bb07ed312d8b0e4fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:39:48 +0000
Subject: [PATCH 44/90] fix: comparing email addresses does not change them

---
 asn1crypto/x509.py | 52 ++++++++++++++++++----------------------------
 1 file changed, 20 insertions(+), 32 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index ca12c29..0ff2ccf 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -186,32 +186,26 @@ class URI(IA5String):
 
 class EmailAddress(IA5String):
 
-    _contents = None
-
-    # If the value has gone through the .set() method, thus normalizing it
-    _normalized = False
-
     # In the wild we've seen this encoded as a UTF8String and PrintableString
     _bad_tag = (12, 19)
 
-    @property
-    def contents(self):
-        """
-        :return:
-            A byte string of the DER-encoded contents of the sequence
+    @staticmethod
+    def _encode(value):
         """
+        Encodes an email address, with the hostname in IDNA form
 
-        return self._contents
-
-    @contents.setter
-    def contents(self, value):
-        """
         :param value:
-            A byte string of the DER-encoded contents of the sequence
+            A unicode string
+
+        :return:
+            A byte string
         """
 
-        self._normalized = False
-        self._contents = value
+        if value.find('@') != -1:
+            mailbox, hostname = value.rsplit('@', 1)
+            return mailbox.encode('ascii') + b'@' + hostname.encode('idna')
+
+        return value.encode('ascii')
 
     def set(self, value):
         """
@@ -230,13 +224,8 @@ class EmailAddress(IA5String):
                 type_name(value)
             ))
 
-        if value.find('@') != -1:
-            mailbox, hostname = value.rsplit('@', 1)
-            encoded_value = mailbox.encode('ascii') + b'@' + hostname.encode('idna')
-        else:
-            encoded_value = value.encode('ascii')
+        encoded_value = self._encode(value)
 
-        self._normalized = True
         self._unicode = value
         self.contents = encoded_value
         self._header = None
@@ -280,16 +269,15 @@ class EmailAddress(IA5String):
         if not isinstance(other, EmailAddress):
             return False
 
-        if not self._normalized:
-            self.set(self.native)
-        if not other._normalized:
-            other.set(other.native)
+        # The normalized form is computed without changing either of the objects
+        contents = self._encode(self.native)
+        other_contents = self._encode(other.native)
 
-        if self._contents.find(b'@') == -1 or other._contents.find(b'@') == -1:
-            return self._contents == other._contents
+        if contents.find(b'@') == -1 or other_contents.find(b'@') == -1:
+            return contents == other_contents
 
-        other_mailbox, other_hostname = other._contents.rsplit(b'@', 1)
-        mailbox, hostname = self._contents.rsplit(b'@', 1)
+        other_mailbox, other_hostname = other_contents.rsplit(b'@', 1)
+        mailbox, hostname = contents.rsplit(b'@', 1)
 
         if mailbox != other_mailbox:
             return False
-- 
2.43.0


From d597c1ee99bd7fcd993aad153ad05b83160eb5a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:51:33 +0000
Subject: [PATCH 45/90] fix: iterating over a bit string ends

---
 asn1crypto/core.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index e822038..6af09d2 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2472,6 +2472,18 @@ class BitString(_IntegerBitString, Constructable, Castable, Primitive, ValueMap)
 
         return key in self._native
 
+    def __iter__(self):
+        """
+        Since any index may be passed to __getitem__(), without this iteration
+        and membership tests would never end
+
+        :return:
+            An iter() of the integers 1 and 0, or if a _map is set, of the names
+            of the bits that are set
+        """
+
+        return iter(self.native)
+
     def __setitem__(self, key, value):
         """
         Sets one of the bits based on a name from the _map
-- 
2.43.0


From 92a5686d346e65030f193cd18abe5ef3ac3b8dad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:02:04 +0000
Subject: [PATCH 46/90] fix: PEM blocks with punctuation in the type name are
 unarmored

---
 asn1crypto/pem.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/pem.py b/asn1crypto/pem.py
index 2d18f3c..51d2b6c 100644
--- a/asn1crypto/pem.py
+++ b/asn1crypto/pem.py
@@ -151,7 +151,9 @@ def _unarmor(pem_bytes):
         if state == "trash":
             # Look for a starting line since some CA cert bundle show the cert
             # into in a parsed format above each PEM block
-            type_name_match = re.match(b'^(?:---- |-----)BEGIN ([A-Z0-9 ]+)(?: ----|-----)', line)
+            # A type name may include punctuation, e.g. "X9.42 DH PARAMETERS", other
+            # than the - of the dashes and the : of the headers
+            type_name_match = re.match(b'^(?:---- |-----)BEGIN ([ -,.-9;-`{-~]+)(?: ----|-----)', line)
             if not type_name_match:
                 continue
             object_type = type_name_match.group(1).decode('ascii')
-- 
2.43.0


From 6be3b45a090c99f2f5080792768e1a42298aefc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:14:57 +0000
Subject: [PATCH 47/90] fix: compare unique identifiers of any octets

---
 asn1crypto/x509.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 0ff2ccf..8b531c2 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -742,9 +742,13 @@ class NameTypeAndValue(Sequence):
             if isinstance(native, str_cls):
                 self._prepped = self._ldap_string_prep(native)
             else:
-                if isinstance(native, byte_cls):
-                    native = ' ' + native.decode('cp1252') + ' '
                 self._prepped = native
+                if isinstance(native, byte_cls):
+                    # Every octet is kept, and the characters .hashable uses as
+                    # separators can not be part of the value
+                    prepped = native.decode('latin1').replace('\\', '\\\\')
+                    prepped = prepped.replace('\x1e', '\\x1e').replace('\x1f', '\\x1f')
+                    self._prepped = ' ' + prepped + ' '
             self._prepped_native = native
         return self._prepped
 
-- 
2.43.0


From 7859607336e5fa5ef4cf9ecb565292386181ac16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:15:00 +0000
Subject: [PATCH 48/90] fix: keep spaces that carry a combining mark when
 comparing names

---
 asn1crypto/x509.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 8b531c2..ae1f888 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -877,10 +877,15 @@ class NameTypeAndValue(Sequence):
                     '''
                 ))
 
-        # Insignificant space handling step
-        string = ' ' + re.sub(' +', '  ', string).strip() + ' '
-
-        return string
+        # Insignificant space handling step - a space that is followed by a
+        # combining mark is not considered a space by this step
+        chars = list(string)
+        for index, char in enumerate(chars[1:]):
+            if chars[index] == ' ' and unicodedata.category(char).startswith('M'):
+                chars[index] = '\x00'
+        string = ' ' + re.sub(' +', '  ', ''.join(chars)).strip() + ' '
+
+        return string.replace('\x00', ' ')
 
 
 class RelativeDistinguishedName(SetOf):
-- 
2.43.0


From 5336724d94df7133d44141dc9d3092f221b96af1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:54 +0000
Subject: [PATCH 49/90] fix: Apple key purposes are in Apple's arc

---
 asn1crypto/x509.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index ae1f888..c0ce298 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1814,9 +1814,9 @@ class KeyPurposeId(ObjectIdentifier):
         '1.2.840.113635.100.1.27': 'apple_test_mobile_store',
         '1.2.840.113635.100.1.28': 'apple_otapki_signer',
         '1.2.840.113635.100.1.29': 'apple_test_otapki_signer',
-        '1.2.840.113625.100.1.30': 'apple_id_validation_record_signing_policy',
-        '1.2.840.113625.100.1.31': 'apple_smp_encryption',
-        '1.2.840.113625.100.1.32': 'apple_test_smp_encryption',
+        '1.2.840.113635.100.1.30': 'apple_id_validation_record_signing_policy',
+        '1.2.840.113635.100.1.31': 'apple_smp_encryption',
+        '1.2.840.113635.100.1.32': 'apple_test_smp_encryption',
         '1.2.840.113635.100.1.33': 'apple_server_authentication',
         '1.2.840.113635.100.1.34': 'apple_pcs_escrow_service',
         # http://nvlpubs.nist.gov/nistpubs/FIPS/NIST.FIPS.201-2.pdf
-- 
2.43.0


From 6a32ba978f469f659e59f0ed87028e642a6e82e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:26:57 +0000
Subject: [PATCH 50/90] fix: tell the Microsoft CSP name and local machine
 keyset attributes apart

---
 asn1crypto/pkcs12.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/pkcs12.py b/asn1crypto/pkcs12.py
index 7ebcefe..6702c58 100644
--- a/asn1crypto/pkcs12.py
+++ b/asn1crypto/pkcs12.py
@@ -53,7 +53,8 @@ class AttributeType(ObjectIdentifier):
         '1.2.840.113549.1.9.20': 'friendly_name',
         '1.2.840.113549.1.9.21': 'local_key_id',
         # https://support.microsoft.com/en-us/kb/287547
-        '1.3.6.1.4.1.311.17.1': 'microsoft_local_machine_keyset',
+        '1.3.6.1.4.1.311.17.1': 'microsoft_csp_name',
+        '1.3.6.1.4.1.311.17.2': 'microsoft_local_machine_keyset',
         # https://github.com/frohoff/jdk8u-dev-jdk/blob/master/src/share/classes/sun/security/pkcs12/PKCS12KeyStore.java
         # this is a set of OIDs, representing key usage, the usual value is a SET of one element OID 2.5.29.37.0
         '2.16.840.1.113894.746875.1.1': 'trusted_key_usage',
-- 
2.43.0


From c7ad1a0966b7a47138a18c8bcd1685b3cca41add Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:43 +0000
Subject: [PATCH 51/90] fix: compare IP addresses of certificates without
 raising OSError

---
 asn1crypto/x509.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index c0ce298..015892a 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2987,10 +2987,19 @@ class Certificate(Sequence):
             return False
 
         family = socket.AF_INET if is_ipv4 else socket.AF_INET6
-        normalized_ip = inet_pton(family, encoded_domain_ip)
+        try:
+            normalized_ip = inet_pton(family, encoded_domain_ip)
+        except (socket.error, OSError, ValueError):
+            # This is not an IP address, even if it looks similar to one
+            return False
 
         for valid_ip in self.valid_ips:
-            valid_family = socket.AF_INET if valid_ip.find('.') != -1 else socket.AF_INET6
+            # An IP address with a mask is a range, and not the name of a host
+            if valid_ip.find('/') != -1:
+                continue
+
+            # The last 32 bits of an IPv6 address may be written with dots
+            valid_family = socket.AF_INET6 if valid_ip.find(':') != -1 else socket.AF_INET
             normalized_valid_ip = inet_pton(valid_family, valid_ip)
 
             if normalized_valid_ip == normalized_ip:
-- 
2.43.0


From 08c583d8c6cdd22ac5f841ef61ba0e95b6ecbbb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:46 +0000
Subject: [PATCH 52/90] fix: characters of a wildcard name only stand for
 themselves

---
 asn1crypto/x509.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 015892a..d972105 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -3071,11 +3071,12 @@ class Certificate(Sequence):
         if wildcard_label == '*':
             return True
 
-        wildcard_regex = re.compile('^' + wildcard_label.replace('*', '.*') + '$')
-        if wildcard_regex.match(first_domain_label):
-            return True
+        # All characters other than the wildcard only stand for themselves
+        prefix, suffix = wildcard_label.split('*')
+        if len(first_domain_label) < len(prefix) + len(suffix):
+            return False
 
-        return False
+        return first_domain_label.startswith(prefix) and first_domain_label.endswith(suffix)
 
 
 # The structures are taken from the OpenSSL source file x_x509a.c, and specify
-- 
2.43.0


From 92ecf55a8c1615140218a9bc13bfdb714b680bac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:48 +0000
Subject: [PATCH 53/90] fix: a name that is no host name does not hide the
 others

---
 asn1crypto/x509.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index d972105..5ecf6cf 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2966,7 +2966,12 @@ class Certificate(Sequence):
             domain_labels = encoded_domain_ip.split('.')
 
             for valid_domain in self.valid_domains:
-                encoded_valid_domain = valid_domain.encode('idna').decode('ascii').lower()
+                try:
+                    encoded_valid_domain = valid_domain.encode('idna').decode('ascii').lower()
+                except (UnicodeError):
+                    # A name that can not be the name of a host, such as one
+                    # starting with a period, does not affect the other ones
+                    continue
                 valid_domain_labels = encoded_valid_domain.split('.')
 
                 # The domain must be equal in label length to match
-- 
2.43.0


From 7fbf3347233fc83e0987fee7cf6ce462df54f26c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:31:51 +0000
Subject: [PATCH 54/90] fix: list each valid domain and IP address once, as a
 whole

---
 asn1crypto/x509.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 5ecf6cf..b77c7eb 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2804,12 +2804,12 @@ class Certificate(Sequence):
             # https://tools.ietf.org/html/rfc6125#section-6.4.4, the common
             # name should not be used if the subject alt name is present.
             else:
-                pattern = re.compile('^(\\*\\.)?(?:[a-zA-Z0-9](?:[a-zA-Z0-9\\-]*[a-zA-Z0-9])?\\.)+[a-zA-Z]{2,}$')
+                pattern = re.compile('^(\\*\\.)?(?:[a-zA-Z0-9](?:[a-zA-Z0-9\\-]*[a-zA-Z0-9])?\\.)+[a-zA-Z]{2,}\\Z')
                 for rdn in self.subject.chosen:
                     for name_type_value in rdn:
                         if name_type_value['type'].native == 'common_name':
                             value = name_type_value['value'].native
-                            if pattern.match(value):
+                            if pattern.match(value) and value not in self._valid_domains:
                                 self._valid_domains.append(value)
 
         return self._valid_domains
@@ -2826,7 +2826,7 @@ class Certificate(Sequence):
 
             if self.subject_alt_name_value:
                 for general_name in self.subject_alt_name_value:
-                    if general_name.name == 'ip_address':
+                    if general_name.name == 'ip_address' and general_name.native not in self._valid_ips:
                         self._valid_ips.append(general_name.native)
 
         return self._valid_ips
-- 
2.43.0


From e7eca657ce9d306d429cd83d045f43df63f57ad9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:39:32 +0000
Subject: [PATCH 55/90] fix: do not keep a list of valid domains or IP
 addresses that could not be completed

---
 asn1crypto/x509.py | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index b77c7eb..5cd1308 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2788,15 +2788,15 @@ class Certificate(Sequence):
         """
 
         if self._valid_domains is None:
-            self._valid_domains = []
+            valid_domains = []
 
             # For the subject alt name extension, we can look at the name of
             # the choice selected since it distinguishes between domain names,
             # email addresses, IPs, etc
             if self.subject_alt_name_value:
                 for general_name in self.subject_alt_name_value:
-                    if general_name.name == 'dns_name' and general_name.native not in self._valid_domains:
-                        self._valid_domains.append(general_name.native)
+                    if general_name.name == 'dns_name' and general_name.native not in valid_domains:
+                        valid_domains.append(general_name.native)
 
             # If there was no subject alt name extension, and the common name
             # in the subject looks like a domain, that is considered the valid
@@ -2809,8 +2809,10 @@ class Certificate(Sequence):
                     for name_type_value in rdn:
                         if name_type_value['type'].native == 'common_name':
                             value = name_type_value['value'].native
-                            if pattern.match(value) and value not in self._valid_domains:
-                                self._valid_domains.append(value)
+                            if pattern.match(value) and value not in valid_domains:
+                                valid_domains.append(value)
+
+            self._valid_domains = valid_domains
 
         return self._valid_domains
 
@@ -2822,12 +2824,14 @@ class Certificate(Sequence):
         """
 
         if self._valid_ips is None:
-            self._valid_ips = []
+            valid_ips = []
 
             if self.subject_alt_name_value:
                 for general_name in self.subject_alt_name_value:
-                    if general_name.name == 'ip_address' and general_name.native not in self._valid_ips:
-                        self._valid_ips.append(general_name.native)
+                    if general_name.name == 'ip_address' and general_name.native not in valid_ips:
+                        valid_ips.append(general_name.native)
+
+            self._valid_ips = valid_ips
 
         return self._valid_ips
 
-- 
2.43.0


From 21d0844071f6c20200af56322f6ff894c6d66e08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:00 +0000
Subject: [PATCH 56/90] fix: MD2, MD5 and SHA-1 with RSA have NULL parameters

---
 asn1crypto/algos.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 038c8f6..f6c42a5 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -57,9 +57,13 @@ class _ForceNullParameters(object):
     # __setitem__ are all to handle a situation where parameters should not be
     # optional and must be Null for certain OIDs. More info at
     # https://tools.ietf.org/html/rfc4055#page-15 and
-    # https://tools.ietf.org/html/rfc4055#section-2.1
+    # https://tools.ietf.org/html/rfc4055#section-2.1 and
+    # https://tools.ietf.org/html/rfc3279#section-2.2.1
     _null_algos = set([
         '1.2.840.113549.1.1.1',    # rsassa_pkcs1v15 / rsaes_pkcs1v15 / rsa
+        '1.2.840.113549.1.1.2',    # md2_rsa
+        '1.2.840.113549.1.1.4',    # md5_rsa
+        '1.2.840.113549.1.1.5',    # sha1_rsa
         '1.2.840.113549.1.1.11',   # sha256_rsa
         '1.2.840.113549.1.1.12',   # sha384_rsa
         '1.2.840.113549.1.1.13',   # sha512_rsa
-- 
2.43.0


From e4e2e9fd7343f2495f97d7e217ea0b2ddd1f866a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:03 +0000
Subject: [PATCH 57/90] fix: key derivation attributes of encryption algorithms
 without a KDF, and scrypt salts

---
 asn1crypto/algos.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index f6c42a5..d64ba85 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -904,7 +904,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return self['parameters']['key_derivation_func']['parameters']['prf']['algorithm'].native
 
         if encryption_algo.find('.') == -1:
-            if encryption_algo.find('_') != -1:
+            if encryption_algo[0:6] == 'pbes1_' or encryption_algo[0:7] == 'pkcs12_':
                 _, hmac_algo, _ = encryption_algo.split('_', 2)
                 return hmac_algo
 
@@ -938,7 +938,8 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo == 'pbes2':
             salt = self['parameters']['key_derivation_func']['parameters']['salt']
 
-            if salt.name == 'other_source':
+            # The salt of scrypt is always an OctetString
+            if isinstance(salt, Pbkdf2Salt) and salt.name == 'other_source':
                 raise ValueError(unwrap(
                     '''
                     Can not determine key derivation salt - the
@@ -950,7 +951,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return salt.native
 
         if encryption_algo.find('.') == -1:
-            if encryption_algo.find('_') != -1:
+            if encryption_algo[0:6] == 'pbes1_' or encryption_algo[0:7] == 'pkcs12_':
                 return self['parameters']['salt'].native
 
             raise ValueError(unwrap(
@@ -986,7 +987,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             return self['parameters']['key_derivation_func']['parameters']['iteration_count'].native
 
         if encryption_algo.find('.') == -1:
-            if encryption_algo.find('_') != -1:
+            if encryption_algo[0:6] == 'pbes1_' or encryption_algo[0:7] == 'pkcs12_':
                 return self['parameters']['iterations'].native
 
             raise ValueError(unwrap(
-- 
2.43.0


From 1b1595231bd4d6886c2898b83090f96d7b363e3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:06 +0000
Subject: [PATCH 58/90] fix: RC2 key lengths without a version and of 256 bits
 or more

---
 asn1crypto/algos.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index d64ba85..718ac08 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -1053,12 +1053,13 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             if rc2_parameter_version in encoded_key_bits_map:
                 return encoded_key_bits_map[rc2_parameter_version]
 
-            if rc2_parameter_version >= 256:
-                return rc2_parameter_version
-
             if rc2_parameter_version is None:
                 return 4  # 32-bit default
 
+            # From 256 on, the version is the number of bits
+            if rc2_parameter_version >= 256:
+                return rc2_parameter_version // 8
+
             raise ValueError(unwrap(
                 '''
                 Invalid RC2 parameter version found in EncryptionAlgorithm
-- 
2.43.0


From fdbeb23e735484ceb79dd2806ebce41e718fbfa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:10 +0000
Subject: [PATCH 59/90] fix: encryption algorithms without a size or cipher
 raise ValueError, RC4 has one

---
 asn1crypto/algos.py | 98 +++++++++++++++++++++++----------------------
 1 file changed, 51 insertions(+), 47 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 718ac08..046a971 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -1079,21 +1079,22 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
 
             return self['parameters']['encryption_scheme'].key_length
 
-        if encryption_algo.find('.') == -1:
-            return {
-                'pbes1_md2_des': 8,
-                'pbes1_md5_des': 8,
-                'pbes1_md2_rc2': 8,
-                'pbes1_md5_rc2': 8,
-                'pbes1_sha1_des': 8,
-                'pbes1_sha1_rc2': 8,
-                'pkcs12_sha1_rc4_128': 16,
-                'pkcs12_sha1_rc4_40': 5,
-                'pkcs12_sha1_tripledes_3key': 24,
-                'pkcs12_sha1_tripledes_2key': 16,
-                'pkcs12_sha1_rc2_128': 16,
-                'pkcs12_sha1_rc2_40': 5,
-            }[encryption_algo]
+        kdf_key_lengths = {
+            'pbes1_md2_des': 8,
+            'pbes1_md5_des': 8,
+            'pbes1_md2_rc2': 8,
+            'pbes1_md5_rc2': 8,
+            'pbes1_sha1_des': 8,
+            'pbes1_sha1_rc2': 8,
+            'pkcs12_sha1_rc4_128': 16,
+            'pkcs12_sha1_rc4_40': 5,
+            'pkcs12_sha1_tripledes_3key': 24,
+            'pkcs12_sha1_tripledes_2key': 16,
+            'pkcs12_sha1_rc2_128': 16,
+            'pkcs12_sha1_rc2_40': 5,
+        }
+        if encryption_algo in kdf_key_lengths:
+            return kdf_key_lengths[encryption_algo]
 
         raise ValueError(unwrap(
             '''
@@ -1144,7 +1145,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         between different variations of TripleDES, AES, and the RC* ciphers.
 
         :return:
-            A unicode string from one of the following: "rc2", "rc5", "des",
+            A unicode string from one of the following: "rc2", "rc4", "rc5", "des",
             "tripledes", "aes"
         """
 
@@ -1153,7 +1154,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo[0:7] in set(['aes128_', 'aes192_', 'aes256_']):
             return 'aes'
 
-        if encryption_algo in set(['des', 'rc2', 'rc5']):
+        if encryption_algo in set(['des', 'rc2', 'rc4', 'rc5']):
             return encryption_algo
 
         if encryption_algo == 'tripledes_3key':
@@ -1162,21 +1163,22 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo == 'pbes2':
             return self['parameters']['encryption_scheme'].encryption_cipher
 
-        if encryption_algo.find('.') == -1:
-            return {
-                'pbes1_md2_des': 'des',
-                'pbes1_md5_des': 'des',
-                'pbes1_md2_rc2': 'rc2',
-                'pbes1_md5_rc2': 'rc2',
-                'pbes1_sha1_des': 'des',
-                'pbes1_sha1_rc2': 'rc2',
-                'pkcs12_sha1_rc4_128': 'rc4',
-                'pkcs12_sha1_rc4_40': 'rc4',
-                'pkcs12_sha1_tripledes_3key': 'tripledes',
-                'pkcs12_sha1_tripledes_2key': 'tripledes',
-                'pkcs12_sha1_rc2_128': 'rc2',
-                'pkcs12_sha1_rc2_40': 'rc2',
-            }[encryption_algo]
+        kdf_ciphers = {
+            'pbes1_md2_des': 'des',
+            'pbes1_md5_des': 'des',
+            'pbes1_md2_rc2': 'rc2',
+            'pbes1_md5_rc2': 'rc2',
+            'pbes1_sha1_des': 'des',
+            'pbes1_sha1_rc2': 'rc2',
+            'pkcs12_sha1_rc4_128': 'rc4',
+            'pkcs12_sha1_rc4_40': 'rc4',
+            'pkcs12_sha1_tripledes_3key': 'tripledes',
+            'pkcs12_sha1_tripledes_2key': 'tripledes',
+            'pkcs12_sha1_rc2_128': 'rc2',
+            'pkcs12_sha1_rc2_40': 'rc2',
+        }
+        if encryption_algo in kdf_ciphers:
+            return kdf_ciphers[encryption_algo]
 
         raise ValueError(unwrap(
             '''
@@ -1203,6 +1205,7 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
             'des': 8,
             'tripledes_3key': 8,
             'rc2': 8,
+            'rc4': 0,
         }
         if encryption_algo in cipher_map:
             return cipher_map[encryption_algo]
@@ -1213,21 +1216,22 @@ class EncryptionAlgorithm(_ForceNullParameters, Sequence):
         if encryption_algo == 'pbes2':
             return self['parameters']['encryption_scheme'].encryption_block_size
 
-        if encryption_algo.find('.') == -1:
-            return {
-                'pbes1_md2_des': 8,
-                'pbes1_md5_des': 8,
-                'pbes1_md2_rc2': 8,
-                'pbes1_md5_rc2': 8,
-                'pbes1_sha1_des': 8,
-                'pbes1_sha1_rc2': 8,
-                'pkcs12_sha1_rc4_128': 0,
-                'pkcs12_sha1_rc4_40': 0,
-                'pkcs12_sha1_tripledes_3key': 8,
-                'pkcs12_sha1_tripledes_2key': 8,
-                'pkcs12_sha1_rc2_128': 8,
-                'pkcs12_sha1_rc2_40': 8,
-            }[encryption_algo]
+        kdf_block_sizes = {
+            'pbes1_md2_des': 8,
+            'pbes1_md5_des': 8,
+            'pbes1_md2_rc2': 8,
+            'pbes1_md5_rc2': 8,
+            'pbes1_sha1_des': 8,
+            'pbes1_sha1_rc2': 8,
+            'pkcs12_sha1_rc4_128': 0,
+            'pkcs12_sha1_rc4_40': 0,
+            'pkcs12_sha1_tripledes_3key': 8,
+            'pkcs12_sha1_tripledes_2key': 8,
+            'pkcs12_sha1_rc2_128': 8,
+            'pkcs12_sha1_rc2_40': 8,
+        }
+        if encryption_algo in kdf_block_sizes:
+            return kdf_block_sizes[encryption_algo]
 
         raise ValueError(unwrap(
             '''
-- 
2.43.0


From 8ac3c560adee2280b2bab26cd771e0b122dc8ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:12 +0000
Subject: [PATCH 60/90] fix: hash of RSASSA-PSS without parameters raises
 ValueError

---
 asn1crypto/algos.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index 046a971..de41030 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -471,7 +471,7 @@ class SignedDigestAlgorithm(_ForceNullParameters, Sequence):
         if algorithm in self._algo_map:
             return self._algo_map[algorithm]
 
-        if algorithm == 'rsassa_pss':
+        if algorithm == 'rsassa_pss' and isinstance(self['parameters'], RSASSAPSSParams):
             return self['parameters']['hash_algorithm']['algorithm'].native
 
         if algorithm == 'ed25519' or algorithm == 'ed448':
@@ -506,7 +506,7 @@ class SignedDigestAlgorithm(_ForceNullParameters, Sequence):
         if algorithm in self._algo_map:
             return self._algo_map[algorithm]
 
-        if algorithm == 'rsassa_pss':
+        if algorithm == 'rsassa_pss' and isinstance(self['parameters'], RSASSAPSSParams):
             return self['parameters']['hash_algorithm']['algorithm'].native
 
         cms_algo_map = {
-- 
2.43.0


From 11b6c5c5394e3d2c939992d074b00cd365ee6d97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:05:53 +0000
Subject: [PATCH 61/90] fix: the ICV length of CCM parameters has a default

---
 asn1crypto/algos.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/algos.py b/asn1crypto/algos.py
index de41030..406aa26 100644
--- a/asn1crypto/algos.py
+++ b/asn1crypto/algos.py
@@ -634,7 +634,7 @@ class CcmParams(Sequence):
     # aes_ICVlen: 4 | 6 | 8 | 10 | 12 | 14 | 16
     _fields = [
         ('aes_nonce', OctetString),
-        ('aes_icvlen', Integer),
+        ('aes_icvlen', Integer, {'default': 12}),
     ]
 
 
-- 
2.43.0


From a7b887a010f44123744b6dcc543cda73b538a9cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:48 +0000
Subject: [PATCH 62/90] fix: the width of a private key in a PrivateKeyInfo is
 part of its encoding

---
 asn1crypto/keys.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index b762921..a1ff9af 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -664,7 +664,10 @@ class ECPrivateKey(Sequence):
         """
 
         if self._key_size is not None and isinstance(self['private_key'], IntegerOctetString):
+            contents = self['private_key'].contents
             self['private_key'].set_encoded_width(self._key_size)
+            if self['private_key'].contents != contents:
+                self._mutated = True
 
 
 class DSAParams(Sequence):
-- 
2.43.0


From bc865866c1e371d472c7b367a216f494026a4c2e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:11:50 +0000
Subject: [PATCH 63/90] fix: RSASSA-PSS keys can be wrapped

---
 asn1crypto/keys.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index a1ff9af..d5f94a1 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -823,7 +823,8 @@ class PrivateKeyInfo(Sequence):
         if algorithm == 'rsa' or algorithm == 'rsassa_pss':
             if not isinstance(private_key, RSAPrivateKey):
                 private_key = RSAPrivateKey.load(private_key)
-            params = Null()
+            # RSASSA-PSS keys without restrictions do not have parameters
+            params = Null() if algorithm == 'rsa' else None
         elif algorithm == 'dsa':
             if not isinstance(private_key, DSAPrivateKey):
                 private_key = DSAPrivateKey.load(private_key)
@@ -850,7 +851,8 @@ class PrivateKeyInfo(Sequence):
 
         private_key_algo = PrivateKeyAlgorithm()
         private_key_algo['algorithm'] = PrivateKeyAlgorithmId(algorithm)
-        private_key_algo['parameters'] = params
+        if params is not None:
+            private_key_algo['parameters'] = params
 
         container = cls()
         container._algorithm = algorithm
@@ -1213,7 +1215,9 @@ class PublicKeyInfo(Sequence):
 
         algo = PublicKeyAlgorithm()
         algo['algorithm'] = PublicKeyAlgorithmId(algorithm)
-        algo['parameters'] = Null()
+        # RSASSA-PSS keys without restrictions do not have parameters
+        if algorithm == 'rsa':
+            algo['parameters'] = Null()
 
         container = cls()
         container['algorithm'] = algo
-- 
2.43.0


From 643f827cd50fa741ac8faf75173e08491b5a0324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:12:35 +0000
Subject: [PATCH 64/90] fix: key information follows edits of the key

---
 asn1crypto/keys.py | 105 +++++++++++++++++++--------------------------
 1 file changed, 43 insertions(+), 62 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index d5f94a1..37f68cc 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -792,8 +792,6 @@ class PrivateKeyInfo(Sequence):
         'private_key': _private_key_spec
     }
 
-    _algorithm = None
-    _bit_size = None
     _public_key = None
     _fingerprint = None
 
@@ -855,7 +853,6 @@ class PrivateKeyInfo(Sequence):
             private_key_algo['parameters'] = params
 
         container = cls()
-        container._algorithm = algorithm
         container['version'] = Integer(0)
         container['private_key_algorithm'] = private_key_algo
         container['private_key'] = private_key
@@ -973,9 +970,7 @@ class PrivateKeyInfo(Sequence):
             A unicode string of "rsa", "rsassa_pss", "dsa" or "ec"
         """
 
-        if self._algorithm is None:
-            self._algorithm = self['private_key_algorithm']['algorithm'].native
-        return self._algorithm
+        return self['private_key_algorithm']['algorithm'].native
 
     @property
     def bit_size(self):
@@ -984,26 +979,24 @@ class PrivateKeyInfo(Sequence):
             The bit size of the private key, as an integer
         """
 
-        if self._bit_size is None:
-            if self.algorithm == 'rsa' or self.algorithm == 'rsassa_pss':
-                byte_len = _byte_len(self['private_key'].parsed['modulus'].native)
-            elif self.algorithm == 'dsa':
-                byte_len = _byte_len(self['private_key_algorithm']['parameters']['p'].native)
-            elif self.algorithm == 'ec':
-                # The octets have the size of the curve, even if the value of
-                # this private key happens to be smaller
-                byte_len = len(self['private_key'].parsed['private_key']._merge_chunks())
-            elif self.algorithm in set(['ed25519', 'ed448', 'x25519', 'x448']):
-                byte_len = len(self['private_key'].parsed.native)
-            else:
-                raise ValueError(unwrap(
-                    '''
-                    The size of a %s key is not known
-                    ''',
-                    self.algorithm
-                ))
-            self._bit_size = byte_len * 8
-        return self._bit_size
+        if self.algorithm == 'rsa' or self.algorithm == 'rsassa_pss':
+            byte_len = _byte_len(self['private_key'].parsed['modulus'].native)
+        elif self.algorithm == 'dsa':
+            byte_len = _byte_len(self['private_key_algorithm']['parameters']['p'].native)
+        elif self.algorithm == 'ec':
+            # The octets have the size of the curve, even if the value of
+            # this private key happens to be smaller
+            byte_len = len(self['private_key'].parsed['private_key']._merge_chunks())
+        elif self.algorithm in set(['ed25519', 'ed448', 'x25519', 'x448']):
+            byte_len = len(self['private_key'].parsed.native)
+        else:
+            raise ValueError(unwrap(
+                '''
+                The size of a %s key is not known
+                ''',
+                self.algorithm
+            ))
+        return byte_len * 8
 
     @property
     def byte_size(self):
@@ -1176,11 +1169,7 @@ class PublicKeyInfo(Sequence):
         'public_key': _public_key_spec
     }
 
-    _algorithm = None
-    _bit_size = None
     _fingerprint = None
-    _sha1 = None
-    _sha256 = None
 
     @classmethod
     def wrap(cls, public_key, algorithm):
@@ -1312,9 +1301,7 @@ class PublicKeyInfo(Sequence):
             A unicode string of "rsa", "rsassa_pss", "dsa" or "ec"
         """
 
-        if self._algorithm is None:
-            self._algorithm = self['algorithm']['algorithm'].native
-        return self._algorithm
+        return self['algorithm']['algorithm'].native
 
     @property
     def bit_size(self):
@@ -1323,29 +1310,27 @@ class PublicKeyInfo(Sequence):
             The bit size of the public key, as an integer
         """
 
-        if self._bit_size is None:
-            if self.algorithm == 'ec':
-                point = self['public_key'].native
-                # A compressed point only contains the X coordinate
-                coords = 1 if point[0:1] in set([b'\x02', b'\x03']) else 2
-                self._bit_size = int(((len(point) - 1) / coords) * 8)
-            else:
-                if self.algorithm in set(['rsa', 'rsassa_pss', 'rsaes_oaep']):
-                    byte_len = _byte_len(self['public_key'].parsed['modulus'].native)
-                elif self.algorithm == 'dsa' or self.algorithm == 'dh':
-                    byte_len = _byte_len(self['algorithm']['parameters']['p'].native)
-                elif self.algorithm in set(['ed25519', 'ed448', 'x25519', 'x448']):
-                    byte_len = len(self['public_key'].native)
-                else:
-                    raise ValueError(unwrap(
-                        '''
-                        The size of a %s key is not known
-                        ''',
-                        self.algorithm
-                    ))
-                self._bit_size = byte_len * 8
-
-        return self._bit_size
+        if self.algorithm == 'ec':
+            # An uncompressed point is two coordinates, a compressed one is one
+            point = self['public_key'].native
+            coords = 1 if point[0:1] in set([b'\x02', b'\x03']) else 2
+            return int(((len(point) - 1) / coords) * 8)
+
+        if self.algorithm in set(['rsa', 'rsassa_pss', 'rsaes_oaep']):
+            byte_len = _byte_len(self['public_key'].parsed['modulus'].native)
+        elif self.algorithm == 'dsa' or self.algorithm == 'dh':
+            byte_len = _byte_len(self['algorithm']['parameters']['p'].native)
+        elif self.algorithm in set(['ed25519', 'ed448', 'x25519', 'x448']):
+            byte_len = len(self['public_key'].native)
+        else:
+            raise ValueError(unwrap(
+                '''
+                The size of a %s key is not known
+                ''',
+                self.algorithm
+            ))
+
+        return byte_len * 8
 
     @property
     def byte_size(self):
@@ -1363,9 +1348,7 @@ class PublicKeyInfo(Sequence):
             The SHA1 hash of the DER-encoded bytes of this public key info
         """
 
-        if self._sha1 is None:
-            self._sha1 = hashlib.sha1(byte_cls(self['public_key'])).digest()
-        return self._sha1
+        return hashlib.sha1(byte_cls(self['public_key'])).digest()
 
     @property
     def sha256(self):
@@ -1374,9 +1357,7 @@ class PublicKeyInfo(Sequence):
             The SHA-256 hash of the DER-encoded bytes of this public key info
         """
 
-        if self._sha256 is None:
-            self._sha256 = hashlib.sha256(byte_cls(self['public_key'])).digest()
-        return self._sha256
+        return hashlib.sha256(byte_cls(self['public_key'])).digest()
 
     @property
     def fingerprint(self):
-- 
2.43.0


From ed6b8681663af5cc153e0eaf376e79c4db57c8ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:18:05 +0000
Subject: [PATCH 65/90] fix: the private key of a parsed EC key keeps the width
 of its curve when it is replaced

---
 asn1crypto/keys.py | 26 +++++++++++++++++++++++---
 1 file changed, 23 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index 37f68cc..bff1809 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -618,15 +618,22 @@ class ECPrivateKey(Sequence):
     # This is necessary to ensure the private_key IntegerOctetString is encoded properly
     def __setitem__(self, key, value):
         previous = _member_state(self)
+        existing_size = 0
+        if key == 'private_key' and isinstance(self['private_key'], IntegerOctetString):
+            existing_size = len(self['private_key']._merge_chunks() or b'')
         try:
             res = super(ECPrivateKey, self).__setitem__(key, value)
 
             if key == 'private_key':
                 if self._key_size is None:
-                    # Infer the key_size from the existing private key if possible
+                    # Infer the key_size from the curve, or else from the
+                    # existing private key, if possible
                     pkey_contents = self['private_key'].contents
-                    if isinstance(pkey_contents, byte_cls) and len(pkey_contents) > 1:
-                        self.set_key_size(len(self['private_key'].contents))
+                    curve_size = self._curve_size()
+                    if curve_size is not None:
+                        self.set_key_size(curve_size)
+                    elif isinstance(pkey_contents, byte_cls) and max(len(pkey_contents), existing_size) > 1:
+                        self.set_key_size(max(len(pkey_contents), existing_size))
 
                 elif self._key_size is not None:
                     self._update_key_size()
@@ -642,6 +649,19 @@ class ECPrivateKey(Sequence):
 
         return res
 
+    def _curve_size(self):
+        """
+        :return:
+            None or the integer byte length of the private keys of the curve
+        """
+
+        parameters = self['parameters']
+        if not isinstance(parameters, ECDomainParameters) or parameters.name == 'implicit_ca':
+            return None
+        if parameters.name == 'named' and parameters.chosen.dotted not in NamedCurve._key_sizes:
+            return None
+        return parameters.key_size
+
     def set_key_size(self, key_size):
         """
         Sets the key_size to ensure the private key is encoded to the proper length
-- 
2.43.0


From e84a1b41a9b419f4ba4d863527eac399b52eae34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:28:33 +0000
Subject: [PATCH 66/90] fix: comparing wrapped structures takes their edits
 into account

---
 asn1crypto/core.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 6af09d2..a50fbd0 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1913,6 +1913,11 @@ class Primitive(Asn1Value):
         if not isinstance(other, Primitive):
             return False
 
+        # Bring the contents up to date with edits of a parsed structure
+        for value in (self, other):
+            if isinstance(value, ParsableOctetString) and value._is_edited():
+                value.dump()
+
         if self.contents != other.contents:
             return False
 
-- 
2.43.0


From 008b560b1ff61593383a455b71a1ebe49fdeec73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:37:44 +0000
Subject: [PATCH 67/90] fix: keys taken from a tagged field are wrapped without
 that tag

---
 asn1crypto/keys.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/keys.py b/asn1crypto/keys.py
index bff1809..4b9a6a1 100644
--- a/asn1crypto/keys.py
+++ b/asn1crypto/keys.py
@@ -841,6 +841,8 @@ class PrivateKeyInfo(Sequence):
         if algorithm == 'rsa' or algorithm == 'rsassa_pss':
             if not isinstance(private_key, RSAPrivateKey):
                 private_key = RSAPrivateKey.load(private_key)
+            else:
+                private_key = private_key.untag()
             # RSASSA-PSS keys without restrictions do not have parameters
             params = Null() if algorithm == 'rsa' else None
         elif algorithm == 'dsa':
@@ -856,7 +858,7 @@ class PrivateKeyInfo(Sequence):
             if not isinstance(private_key, ECPrivateKey):
                 private_key = ECPrivateKey.load(private_key)
             else:
-                private_key = private_key.copy()
+                private_key = private_key.untag()
             params = private_key['parameters']
             del private_key['parameters']
         else:
-- 
2.43.0


From 8d53d2ed87e66b931ad25485d13342e6394bc81e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:50:59 +0000
Subject: [PATCH 68/90] fix: escapes in an IRI are kept when it is converted to
 a URI

---
 asn1crypto/_iri.py | 59 +++++++++++++++++++++++-----------------------
 1 file changed, 29 insertions(+), 30 deletions(-)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index 7394b4d..034bcd3 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -207,38 +207,37 @@ def _urlquote(string, safe=''):
     if string is None or string == '':
         return None
 
-    # Anything already hex quoted is pulled out of the URL and unquoted if
-    # possible
-    escapes = []
-    if re.search('%[0-9a-fA-F]{2}', string):
-        # Try to unquote any percent values, restoring them if they are not
-        # valid UTF-8. Also, requote any safe chars since encoded versions of
-        # those are functionally different than the unquoted ones.
-        def _try_unescape(match):
-            byte_string = unquote_to_bytes(match.group(0))
-            unicode_string = byte_string.decode('utf-8', 'iriutf8')
-            for safe_char in list(safe):
-                unicode_string = unicode_string.replace(safe_char, '%%%02x' % ord(safe_char))
-            return unicode_string
-        string = re.sub('(?:%[0-9a-fA-F]{2})+', _try_unescape, string)
-
-        # Once we have the minimal set of hex quoted values, removed them from
-        # the string so that they are not double quoted
-        def _extract_escape(match):
-            escapes.append(match.group(0).encode('ascii'))
-            return '\x00'
-        string = re.sub('%[0-9a-fA-F]{2}', _extract_escape, string)
-
-    output = urlquote(string.encode('utf-8'), safe=safe.encode('utf-8'))
-    if not isinstance(output, byte_cls):
-        output = output.encode('ascii')
+    # Anything already hex quoted is normalized on its own: encoded unreserved
+    # characters are unquoted, everything else has to stay encoded since the
+    # unquoted character is functionally different
+    output = b''
+    position = 0
+    for match in re.finditer('(?:%[0-9a-fA-F]{2})+', string):
+        output += _quote_bytes(string[position:match.start()].encode('utf-8'), safe)
+        output += _quote_bytes(unquote_to_bytes(match.group(0)), '')
+        position = match.end()
+    output += _quote_bytes(string[position:].encode('utf-8'), safe)
+
+    return output
+
+
+def _quote_bytes(byte_string, safe):
+    """
+    Quotes a byte string for use in a URL
+
+    :param byte_string:
+        A byte string
+
+    :param safe:
+        A unicode string of character to not encode
 
-    # Restore the existing quoted values that we extracted
-    if len(escapes) > 0:
-        def _return_escape(_):
-            return escapes.pop(0)
-        output = re.sub(b'%00', _return_escape, output)
+    :return:
+        An ASCII byte string of the quoted string
+    """
 
+    output = urlquote(byte_string, safe=safe.encode('utf-8'))
+    if not isinstance(output, byte_cls):
+        output = output.encode('ascii')
     return output
 
 
-- 
2.43.0


From ce383acf38eaf7f99519543d720d8d175e0e81f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:02 +0000
Subject: [PATCH 69/90] fix: escapes of reserved characters are kept when a URI
 is read

---
 asn1crypto/_iri.py | 58 ++++++++++++++++------------------------------
 1 file changed, 20 insertions(+), 38 deletions(-)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index 034bcd3..3ae0b2f 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -142,8 +142,8 @@ def uri_to_iri(value):
     if scheme is not None:
         scheme = scheme.decode('ascii')
 
-    username = _urlunquote(parsed.username, remap=[':', '@'])
-    password = _urlunquote(parsed.password, remap=[':', '@'])
+    username = _urlunquote(parsed.username)
+    password = _urlunquote(parsed.password)
     hostname = parsed.hostname
     if hostname:
         hostname = hostname.decode('idna')
@@ -162,8 +162,8 @@ def uri_to_iri(value):
     if port is not None:
         netloc += ':' + str_cls(port)
 
-    path = _urlunquote(parsed.path, remap=['/'], preserve=True)
-    query = _urlunquote(parsed.query, remap=['&', '='], preserve=True)
+    path = _urlunquote(parsed.path)
+    query = _urlunquote(parsed.query)
     fragment = _urlunquote(parsed.fragment)
 
     return urlunsplit((scheme, netloc, path, query, fragment))
@@ -189,6 +189,9 @@ def _iri_utf8_errors_handler(exc):
 
 codecs.register_error('iriutf8', _iri_utf8_errors_handler)
 
+# The characters that stay %XX encoded when a URI is converted to an IRI
+_ESCAPED = '%:/?#[]@!$&\'()*+,;=\x7f' + ''.join(chr(num) for num in range(32))
+
 
 def _urlquote(string, safe=''):
     """
@@ -241,22 +244,16 @@ def _quote_bytes(byte_string, safe):
     return output
 
 
-def _urlunquote(byte_string, remap=None, preserve=None):
+def _urlunquote(byte_string):
     """
-    Unquotes a URI portion from a byte string into unicode using UTF-8
+    Unquotes a URI portion from a byte string into unicode using UTF-8. The
+    %XX encodings of reserved characters, percent signs and control characters
+    are retained, since the characters themselves are functionally different
+    or not valid in an IRI.
 
     :param byte_string:
         A byte string of the data to unquote
 
-    :param remap:
-        A list of characters (as unicode) that should be re-mapped to a
-        %XX encoding. This is used when characters are not valid in part of a
-        URL.
-
-    :param preserve:
-        A bool - indicates that the chars to be remapped if they occur in
-        non-hex form, should be preserved. E.g. / for URL path.
-
     :return:
         A unicode string
     """
@@ -264,27 +261,12 @@ def _urlunquote(byte_string, remap=None, preserve=None):
     if byte_string is None:
         return byte_string
 
-    if byte_string == b'':
-        return ''
-
-    if preserve:
-        replacements = ['\x1A', '\x1C', '\x1D', '\x1E', '\x1F']
-        preserve_unmap = {}
-        for char in remap:
-            replacement = replacements.pop(0)
-            preserve_unmap[replacement] = char
-            byte_string = byte_string.replace(char.encode('ascii'), replacement.encode('ascii'))
-
-    byte_string = unquote_to_bytes(byte_string)
+    def _unescape(match):
+        output = unquote_to_bytes(match.group(0))
+        # The percent sign is first since the others add such
+        for char in _ESCAPED:
+            output = output.replace(char.encode('ascii'), ('%%%02x' % ord(char)).encode('ascii'))
+        return output
+    byte_string = re.sub(b'(?:%[0-9a-fA-F]{2})+', _unescape, byte_string)
 
-    if remap:
-        for char in remap:
-            byte_string = byte_string.replace(char.encode('ascii'), ('%%%02x' % ord(char)).encode('ascii'))
-
-    output = byte_string.decode('utf-8', 'iriutf8')
-
-    if preserve:
-        for replacement, original in preserve_unmap.items():
-            output = output.replace(replacement, original)
-
-    return output
+    return byte_string.decode('utf-8', 'iriutf8')
-- 
2.43.0


From acba23cca7ac45802d376de55f7d7a5399cc6b20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:05 +0000
Subject: [PATCH 70/90] fix: IPv6 addresses in a URI keep their brackets

---
 asn1crypto/_iri.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index 3ae0b2f..4237cb6 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -76,6 +76,9 @@ def iri_to_uri(value, normalize=False):
     hostname = parsed.hostname
     if hostname is not None:
         hostname = hostname.encode('idna')
+        # IPv6 addresses are enclosed in brackets
+        if hostname.find(b':') != -1:
+            hostname = b'[' + hostname + b']'
     # RFC 3986 allows userinfo to contain sub-delims
     username = _urlquote(parsed.username, safe='!$&\'()*+,;=')
     password = _urlquote(parsed.password, safe='!$&\'()*+,;=')
@@ -147,6 +150,9 @@ def uri_to_iri(value):
     hostname = parsed.hostname
     if hostname:
         hostname = hostname.decode('idna')
+        # IPv6 addresses are enclosed in brackets
+        if hostname.find(':') != -1:
+            hostname = '[' + hostname + ']'
     port = parsed.port
     if port and not isinstance(port, int_types):
         port = port.decode('ascii')
-- 
2.43.0


From 3099f3a1727614b4bbfa3b45857f74469338f107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:08 +0000
Subject: [PATCH 71/90] fix: URIs with an empty authority keep it

---
 asn1crypto/_iri.py | 33 +++++++++++++++++++++++++--------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index 4237cb6..1b20d26 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -19,7 +19,7 @@ from ._errors import unwrap
 from ._types import byte_cls, str_cls, type_name, bytes_to_list, int_types
 
 if sys.version_info < (3,):
-    from urlparse import urlsplit, urlunsplit
+    from urlparse import urlsplit
     from urllib import (
         quote as urlquote,
         unquote as unquote_to_bytes,
@@ -30,7 +30,6 @@ else:
         quote as urlquote,
         unquote_to_bytes,
         urlsplit,
-        urlunsplit,
     )
 
 
@@ -110,13 +109,20 @@ def iri_to_uri(value, normalize=False):
     if normalize and query is None and fragment is None and path == b'/':
         path = None
 
-    # Python 2.7 compat
     if path is None:
-        path = ''
+        path = b''
 
-    output = urlunsplit((scheme, netloc, path, query, fragment))
-    if isinstance(output, str_cls):
-        output = output.encode('latin1')
+    output = b''
+    if scheme:
+        output += scheme + b':'
+    # An empty authority is retained, e.g. ldap:///cn=example
+    if re.match('(?:[^:/?#]+:)?//', value):
+        output += b'//' + netloc
+    output += path
+    if query is not None:
+        output += b'?' + query
+    if fragment is not None:
+        output += b'#' + fragment
     return output
 
 
@@ -172,7 +178,18 @@ def uri_to_iri(value):
     query = _urlunquote(parsed.query)
     fragment = _urlunquote(parsed.fragment)
 
-    return urlunsplit((scheme, netloc, path, query, fragment))
+    output = ''
+    if scheme:
+        output += scheme + ':'
+    # An empty authority is retained, e.g. ldap:///cn=example
+    if re.match(b'(?:[^:/?#]+:)?//', value):
+        output += '//' + netloc
+    output += path
+    if query:
+        output += '?' + query
+    if fragment:
+        output += '#' + fragment
+    return output
 
 
 def _iri_utf8_errors_handler(exc):
-- 
2.43.0


From 9e1756a8496ef798ef12504fa858875b739a0ba7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:51:11 +0000
Subject: [PATCH 72/90] fix: schemes and lone passwords of a URI are kept

---
 asn1crypto/_iri.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/asn1crypto/_iri.py b/asn1crypto/_iri.py
index 1b20d26..d618862 100644
--- a/asn1crypto/_iri.py
+++ b/asn1crypto/_iri.py
@@ -71,7 +71,7 @@ def iri_to_uri(value, normalize=False):
         parsed = urlsplit(value)
 
     if scheme is None:
-        scheme = _urlquote(parsed.scheme)
+        scheme = parsed.scheme.encode('ascii')
     hostname = parsed.hostname
     if hostname is not None:
         hostname = hostname.encode('idna')
@@ -86,8 +86,8 @@ def iri_to_uri(value, normalize=False):
         port = str_cls(port).encode('ascii')
 
     netloc = b''
-    if username is not None:
-        netloc += username
+    if username is not None or password is not None:
+        netloc += username or b''
         if password:
             netloc += b':' + password
         netloc += b'@'
-- 
2.43.0


From a44044cc87d02ae204cad02c76c24684f8c9e74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:07 +0000
Subject: [PATCH 73/90] fix: DNS names with the same ASCII form are equal

---
 asn1crypto/x509.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 5cd1308..8e1d4bc 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -90,7 +90,8 @@ class DNSName(IA5String):
         if not isinstance(other, DNSName):
             return False
 
-        return self.__unicode__().lower() == other.__unicode__().lower()
+        # Different texts may stand for the same ASCII form
+        return (self._merge_chunks() or b'').lower() == (other._merge_chunks() or b'').lower()
 
     def set(self, value):
         """
-- 
2.43.0


From dc6252cd8c84189a37fd56da06cf34e629030840 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:10 +0000
Subject: [PATCH 74/90] fix: a GeneralName is not equal to anything else

---
 asn1crypto/x509.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 8e1d4bc..b3f4a81 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1498,6 +1498,9 @@ class GeneralName(Choice):
             A boolean
         """
 
+        if not isinstance(other, GeneralName):
+            return False
+
         if self.name in ('other_name', 'x400_address', 'edi_party_name'):
             raise ValueError(unwrap(
                 '''
-- 
2.43.0


From 6b413d0cdb05d6a067bed20769741553da5bfd35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:14 +0000
Subject: [PATCH 75/90] fix: the inet_pton() shim reads all forms of addresses
 and nothing else

---
 asn1crypto/_inet.py | 37 +++++++++++++++++++------------------
 1 file changed, 19 insertions(+), 18 deletions(-)

diff --git a/asn1crypto/_inet.py b/asn1crypto/_inet.py
index 045ba56..8b14d19 100644
--- a/asn1crypto/_inet.py
+++ b/asn1crypto/_inet.py
@@ -1,6 +1,7 @@
 # coding: utf-8
 from __future__ import unicode_literals, division, absolute_import, print_function
 
+import re
 import socket
 import struct
 
@@ -120,11 +121,10 @@ def inet_pton(address_family, ip_string):
         if not error:
             ints = []
             for o in octets:
-                o = int(o)
-                if o > 255 or o < 0:
+                if re.match('(?:0|[1-9][0-9]{0,2})\\Z', o) is None or int(o) > 255:
                     error = True
                     break
-                ints.append(o)
+                ints.append(int(o))
 
         if error:
             raise ValueError(unwrap(
@@ -137,29 +137,30 @@ def inet_pton(address_family, ip_string):
 
         return struct.pack(b'!BBBB', *ints)
 
-    error = False
+    # The last 32 bits may be written as an IPv4 address
+    head, colon, tail = ip_string.rpartition(':')
+    if tail.find('.') != -1:
+        ipv4 = struct.unpack(b'!HH', inet_pton(socket.AF_INET, tail))
+        ip_string = head + colon + '%x:%x' % ipv4
+
     omitted = ip_string.count('::')
-    if omitted > 1:
-        error = True
-    elif omitted == 0:
+    if omitted == 0:
         octets = ip_string.split(':')
         error = len(octets) != 8
     else:
-        begin, end = ip_string.split('::')
-        begin_octets = begin.split(':')
-        end_octets = end.split(':')
+        begin, end = ip_string.split('::', 1)
+        begin_octets = begin.split(':') if begin else []
+        end_octets = end.split(':') if end else []
         missing = 8 - len(begin_octets) - len(end_octets)
         octets = begin_octets + (['0'] * missing) + end_octets
+        error = missing < 1
 
-    if not error:
-        ints = []
-        for o in octets:
-            o = int(o, 16)
-            if o > 65535 or o < 0:
-                error = True
-                break
-            ints.append(o)
+    for o in octets:
+        if re.match('[0-9a-fA-F]{1,4}\\Z', o) is None:
+            error = True
 
+    if not error:
+        ints = [int(o, 16) for o in octets]
         return struct.pack(b'!HHHHHHHH', *ints)
 
     raise ValueError(unwrap(
-- 
2.43.0


From 64e80398c9e6cb292a6c4b3bf01ce9a5a3f12a86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:40 +0000
Subject: [PATCH 76/90] fix: DistributionPoint.url is None for a point without
 a name, and the same each time it is read

---
 asn1crypto/x509.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index b3f4a81..b0f57c8 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1614,8 +1614,11 @@ class DistributionPoint(Sequence):
         """
 
         if self._url is False:
-            self._url = None
             name = self['distribution_point']
+            if name is VOID:
+                self._url = None
+                return self._url
+
             if name.name != 'full_name':
                 raise ValueError(unwrap(
                     '''
@@ -1624,12 +1627,14 @@ class DistributionPoint(Sequence):
                     '''
                 ))
 
+            output = None
             for general_name in name.chosen:
                 if general_name.name == 'uniform_resource_identifier':
                     url = general_name.native
                     if url.lower().startswith(('http://', 'https://', 'ldap://', 'ldaps://')):
-                        self._url = url
+                        output = url
                         break
+            self._url = output
 
         return self._url
 
-- 
2.43.0


From 79f5176d0f882843d118aa57fd6ca2cffe3133d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:43 +0000
Subject: [PATCH 77/90] fix: a distribution point is listed once, and CRL
 points without a name are passed over

---
 asn1crypto/crl.py  | 10 ++++++++--
 asn1crypto/x509.py |  1 +
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/crl.py b/asn1crypto/crl.py
index bf30196..7a750cd 100644
--- a/asn1crypto/crl.py
+++ b/asn1crypto/crl.py
@@ -24,6 +24,7 @@ from .core import (
     ParsableOctetString,
     Sequence,
     SequenceOf,
+    VOID,
 )
 from .x509 import (
     AuthorityInfoAccessSyntax,
@@ -488,18 +489,23 @@ class CertificateList(Sequence):
         """
 
         if self._delta_crl_distribution_points is None:
-            self._delta_crl_distribution_points = []
+            output = []
 
             if self.freshest_crl_value is not None:
                 for distribution_point in self.freshest_crl_value:
                     distribution_point_name = distribution_point['distribution_point']
+                    if distribution_point_name is VOID:
+                        continue
                     # RFC 5280 indicates conforming CA should not use the relative form
                     if distribution_point_name.name == 'name_relative_to_crl_issuer':
                         continue
                     # This library is currently only concerned with HTTP-based CRLs
                     for general_name in distribution_point_name.chosen:
                         if general_name.name == 'uniform_resource_identifier':
-                            self._delta_crl_distribution_points.append(distribution_point)
+                            output.append(distribution_point)
+                            break
+
+            self._delta_crl_distribution_points = output
 
         return self._delta_crl_distribution_points
 
diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index b0f57c8..b668928 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2763,6 +2763,7 @@ class Certificate(Sequence):
             for general_name in distribution_point_name.chosen:
                 if general_name.name == 'uniform_resource_identifier':
                     output.append(distribution_point)
+                    break
 
         return output
 
-- 
2.43.0


From 24decbdc1c57b4ace91212a64d2eb2cd43673049 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:47 +0000
Subject: [PATCH 78/90] fix: CRL attributes that can not be read raise each
 time they are asked for

---
 asn1crypto/crl.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/asn1crypto/crl.py b/asn1crypto/crl.py
index 7a750cd..b3f78c1 100644
--- a/asn1crypto/crl.py
+++ b/asn1crypto/crl.py
@@ -259,12 +259,13 @@ class RevokedCertificate(Sequence):
         """
 
         if self._issuer_name is False:
-            self._issuer_name = None
+            output = None
             if self.certificate_issuer_value:
                 for general_name in self.certificate_issuer_value:
                     if general_name.name == 'directory_name':
-                        self._issuer_name = general_name.chosen
+                        output = general_name.chosen
                         break
+            self._issuer_name = output
         return self._issuer_name
 
 
@@ -467,7 +468,7 @@ class CertificateList(Sequence):
         """
 
         if self._issuer_cert_urls is None:
-            self._issuer_cert_urls = []
+            output = []
             if self.authority_information_access_value:
                 for entry in self.authority_information_access_value:
                     if entry['access_method'].native == 'ca_issuers':
@@ -476,7 +477,8 @@ class CertificateList(Sequence):
                             continue
                         url = location.native
                         if url.lower()[0:7] == 'http://':
-                            self._issuer_cert_urls.append(url)
+                            output.append(url)
+            self._issuer_cert_urls = output
         return self._issuer_cert_urls
 
     @property
-- 
2.43.0


From ecf7f135775c58710e5a633c4c10409bf33ee2c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:50 +0000
Subject: [PATCH 79/90] fix: self_signed compares empty key identifiers, and
 raises again for unreadable names

---
 asn1crypto/x509.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index b668928..0ff847d 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2892,15 +2892,16 @@ class Certificate(Sequence):
         """
 
         if self._self_signed is None:
-            self._self_signed = 'no'
+            output = 'no'
             if self.self_issued:
-                if self.key_identifier:
-                    if not self.authority_key_identifier:
-                        self._self_signed = 'maybe'
+                if self.key_identifier is not None:
+                    if self.authority_key_identifier is None:
+                        output = 'maybe'
                     elif self.authority_key_identifier == self.key_identifier:
-                        self._self_signed = 'maybe'
+                        output = 'maybe'
                 else:
-                    self._self_signed = 'maybe'
+                    output = 'maybe'
+            self._self_signed = output
         return self._self_signed
 
     @property
-- 
2.43.0


From 4a0cead1a05b0204daf582aedfd40a101d64f7c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:53 +0000
Subject: [PATCH 80/90] fix: authority_issuer_serial uses the directory name
 and is None without one or without a serial number

---
 asn1crypto/x509.py | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index 0ff847d..e9a7886 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -2698,15 +2698,17 @@ class Certificate(Sequence):
         """
 
         if self._authority_issuer_serial is False:
+            output = None
             akiv = self.authority_key_identifier_value
-            if akiv and akiv['authority_cert_issuer'].native:
-                issuer = self.authority_key_identifier_value['authority_cert_issuer'][0].chosen
-                # We untag the element since it is tagged via being a choice from GeneralName
-                issuer = issuer.untag()
-                authority_serial = self.authority_key_identifier_value['authority_cert_serial_number'].native
-                self._authority_issuer_serial = issuer.sha256 + b':' + str_cls(authority_serial).encode('ascii')
-            else:
-                self._authority_issuer_serial = None
+            if akiv and akiv['authority_cert_issuer'] is not VOID:
+                authority_serial = akiv['authority_cert_serial_number'].native
+                for general_name in akiv['authority_cert_issuer']:
+                    if general_name.name == 'directory_name' and authority_serial is not None:
+                        # We untag the element since it is tagged via being a choice from GeneralName
+                        issuer = general_name.chosen.untag()
+                        output = issuer.sha256 + b':' + str_cls(authority_serial).encode('ascii')
+                        break
+            self._authority_issuer_serial = output
         return self._authority_issuer_serial
 
     @property
-- 
2.43.0


From 9696e99a4f1650839a395b1711e03efd3c466903 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:55 +0000
Subject: [PATCH 81/90] fix: attributes of OCSP responses without a body are
 None

---
 asn1crypto/ocsp.py | 31 ++++++++++++++++++++++---------
 1 file changed, 22 insertions(+), 9 deletions(-)

diff --git a/asn1crypto/ocsp.py b/asn1crypto/ocsp.py
index b8f7caf..2f27c9d 100644
--- a/asn1crypto/ocsp.py
+++ b/asn1crypto/ocsp.py
@@ -28,6 +28,7 @@ from .core import (
     ParsableOctetString,
     Sequence,
     SequenceOf,
+    VOID,
 )
 from .crl import AuthorityInfoAccessSyntax, CRLReason
 from .keys import PublicKeyAlgorithm
@@ -628,13 +629,17 @@ class OCSPResponse(Sequence):
 
         self._critical_extensions = set()
 
-        for extension in self['response_bytes']['response'].parsed['tbs_response_data']['response_extensions']:
-            name = extension['extn_id'].native
-            attribute_name = '_%s_value' % name
-            if hasattr(self, attribute_name):
-                setattr(self, attribute_name, extension['extn_value'].parsed)
-            if extension['critical'].native:
-                self._critical_extensions.add(name)
+        # Responses other than successful ones have no body
+        response_data = self.response_data
+
+        if response_data is not None:
+            for extension in response_data['response_extensions']:
+                name = extension['extn_id'].native
+                attribute_name = '_%s_value' % name
+                if hasattr(self, attribute_name):
+                    setattr(self, attribute_name, extension['extn_value'].parsed)
+                if extension['critical'].native:
+                    self._critical_extensions.add(name)
 
         self._processed_extensions = True
 
@@ -689,7 +694,11 @@ class OCSPResponse(Sequence):
             None or an asn1crypto.ocsp.BasicOCSPResponse object
         """
 
-        return self['response_bytes']['response'].parsed
+        response_bytes = self['response_bytes']
+        if response_bytes is VOID or response_bytes['response_type'].native != 'basic_ocsp_response':
+            return None
+
+        return response_bytes['response'].parsed
 
     @property
     def response_data(self):
@@ -700,4 +709,8 @@ class OCSPResponse(Sequence):
             None or an asn1crypto.ocsp.ResponseData object
         """
 
-        return self['response_bytes']['response'].parsed['tbs_response_data']
+        basic_ocsp_response = self.basic_ocsp_response
+        if basic_ocsp_response is None:
+            return None
+
+        return basic_ocsp_response['tbs_response_data']
-- 
2.43.0


From 81a4524d3e619223a9fafb6a9af859104da74f3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:11:59 +0000
Subject: [PATCH 82/90] fix: Pfx.authenticated_safe reads signed contents

---
 asn1crypto/pkcs12.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/pkcs12.py b/asn1crypto/pkcs12.py
index 6702c58..f0d09c8 100644
--- a/asn1crypto/pkcs12.py
+++ b/asn1crypto/pkcs12.py
@@ -116,7 +116,7 @@ class Pfx(Sequence):
         if self._authenticated_safe is None:
             content = self['auth_safe']['content']
             if isinstance(content, SignedData):
-                content = content['content_info']['content']
+                content = content['encap_content_info']['content']
             self._authenticated_safe = AuthenticatedSafe.load(content.native)
         return self._authenticated_safe
 
-- 
2.43.0


From 22f97e0f97de4e728f3abc4100e0b9dcff55bd49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:12:01 +0000
Subject: [PATCH 83/90] fix: a TimeStampResp need not have a token (RFC 3161)

---
 asn1crypto/tsp.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/tsp.py b/asn1crypto/tsp.py
index 0017706..6a014a1 100644
--- a/asn1crypto/tsp.py
+++ b/asn1crypto/tsp.py
@@ -156,7 +156,7 @@ class PKIStatusInfo(Sequence):
 class TimeStampResp(Sequence):
     _fields = [
         ('status', PKIStatusInfo),
-        ('time_stamp_token', ContentInfo),
+        ('time_stamp_token', ContentInfo, {'optional': True}),
     ]
 
 
-- 
2.43.0


From b9f90dc7855d5750cc2bcdaf6948ab8906a0aaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:13:48 +0000
Subject: [PATCH 84/90] fix: Pfx.authenticated_safe is None when the file holds
 no contents

---
 asn1crypto/pkcs12.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/pkcs12.py b/asn1crypto/pkcs12.py
index f0d09c8..629d602 100644
--- a/asn1crypto/pkcs12.py
+++ b/asn1crypto/pkcs12.py
@@ -26,6 +26,7 @@ from .core import (
     Sequence,
     SequenceOf,
     SetOf,
+    VOID,
 )
 from .keys import PrivateKeyInfo, EncryptedPrivateKeyInfo
 from .x509 import Certificate, KeyPurposeId
@@ -117,6 +118,8 @@ class Pfx(Sequence):
             content = self['auth_safe']['content']
             if isinstance(content, SignedData):
                 content = content['encap_content_info']['content']
+            if content is VOID:
+                return None
             self._authenticated_safe = AuthenticatedSafe.load(content.native)
         return self._authenticated_safe
 
-- 
2.43.0


From 5288f697b72a53dfff6fccaf55ee6583e55e2197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:33:24 +0000
Subject: [PATCH 85/90] fix: the copy of a constructed string does not keep its
 header

---
 asn1crypto/core.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index a50fbd0..8cab0b8 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -655,7 +655,9 @@ class Asn1Value(object):
             Another instance of the same class
         """
 
-        if not _is_indefinite(other):
+        # The header of a constructed string does not fit its merged contents
+        constructed = isinstance(other, Constructable) and other._indefinite
+        if not _is_indefinite(other) and not constructed:
             self._header = other._header
             self._trailer = other._trailer
 
-- 
2.43.0


From 5d591cf2a154e7cbe346c79874da09531a4bac2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:44:12 +0000
Subject: [PATCH 86/90] fix: an explicitly tagged list keeps the element type
 given with its member

---
 asn1crypto/core.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 8cab0b8..86758da 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -6264,8 +6264,9 @@ def _build(class_, method, tag, header, contents, trailer, spec=None, spec_param
                 explicit_trailer = parsed_trailer + explicit_trailer
 
             inner_params = {'no_explicit': True}
-            if spec_params and 'implicit' in spec_params:
-                inner_params['implicit'] = spec_params['implicit']
+            for param in ('implicit', 'spec'):
+                if spec_params and param in spec_params:
+                    inner_params[param] = spec_params[param]
             value = _build(*info, spec=spec, spec_params=inner_params)
             value._header = explicit_header
             value._trailer = explicit_trailer
-- 
2.43.0


From b915f20a82265e8f468d90f9043c0423f4030ebc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:47:00 +0000
Subject: [PATCH 87/90] fix: the copy of an unread constructed bit string knows
 its unused bits

---
 asn1crypto/core.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 86758da..05c26f9 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -2274,7 +2274,9 @@ class _IntegerBitString(object):
         """
 
         super(_IntegerBitString, self)._copy(other, copy_func)
-        self._unused_bits = other._unused_bits
+        # Re-encoding the chunks of a constructed value has set the unused bits
+        if not other._indefinite:
+            self._unused_bits = other._unused_bits
 
     @property
     def unused_bits(self):
@@ -2674,7 +2676,9 @@ class OctetBitString(Constructable, Castable, Primitive):
 
         super(OctetBitString, self)._copy(other, copy_func)
         self._bytes = other._bytes
-        self._unused_bits = other._unused_bits
+        # Re-encoding the chunks of a constructed value has set the unused bits
+        if not other._indefinite:
+            self._unused_bits = other._unused_bits
 
     def _as_chunk(self):
         """
-- 
2.43.0


From bda4025da704c9e4e81c2a1baf89f0f532a752b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:28:15 +0000
Subject: [PATCH 88/90] fix: a list whose items are explicitly tagged by their
 class tags an item given with other tags once

---
 asn1crypto/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index 05c26f9..e2e2644 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -4797,6 +4797,9 @@ class SequenceOf(Asn1Value):
             params['explicit'] = self._child_spec.explicit
         if self._child_spec.implicit:
             params['implicit'] = (self._child_spec.class_, self._child_spec.tag)
+        if params and _fix_tagging(new_value, params) is not new_value:
+            # The class applies its own tagging to a value that has no other
+            return new_value.untag()
         return _fix_tagging(new_value, params)
 
     def __len__(self):
-- 
2.43.0


From 48ae6a84e26d30b1c76e0c5cf47e68e6a3cbbc04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:30:08 +0000
Subject: [PATCH 89/90] fix: a name with several attribute values that are no
 text has words

---
 asn1crypto/x509.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/asn1crypto/x509.py b/asn1crypto/x509.py
index e9a7886..2cd9de7 100644
--- a/asn1crypto/x509.py
+++ b/asn1crypto/x509.py
@@ -1205,7 +1205,7 @@ class Name(Choice):
             return ', '.join(
                 reversed([self._recursive_humanize(sub_value) for sub_value in value])
             )
-        return value.native
+        return str_cls(value.native)
 
     @property
     def sha1(self):
-- 
2.43.0


From 7186f307446d77998de81b3ba62369b0d54b0ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:32:57 +0000
Subject: [PATCH 90/90] fix: a concatenation loaded without its last values can
 be dumped

---
 asn1crypto/core.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/asn1crypto/core.py b/asn1crypto/core.py
index e2e2644..4071352 100644
--- a/asn1crypto/core.py
+++ b/asn1crypto/core.py
@@ -1707,6 +1707,9 @@ class Concat(object):
 
         contents = b''
         for child in self._children:
+            # A value missing from the end of what was loaded has no encoding
+            if child is not None and child.contents is None:
+                continue
             contents += child.dump(force=force)
         return contents
 
-- 
2.43.0

