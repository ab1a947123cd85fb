From dc9e11b08afc87660e2cb5e88d4731a6840b4dc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:14 +0000
Subject: [PATCH 001/124] fix: accept feature names starting with 'not' and
 double negation in if-feature

---
 yangson/schemadata.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 3685539..11607cb 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -25,6 +25,7 @@ This module implements the following classes:
 * SchemaData: Repository of YANG schema structures and methods.
 * FeatureExprParser: Parser for if-feature expressions.
 """
+import re
 from collections.abc import MutableSet
 from typing import Any, Optional, Sequence
 from .exceptions import (
@@ -516,6 +517,9 @@ class SchemaData:
 class FeatureExprParser(Parser):
     """Parser and evaluator for if-feature expressions."""
 
+    ident_cont_re = re.compile("[a-zA-Z0-9_.:-]")
+    """Regular expression for a character that continues a feature name."""
+
     def __init__(self, text: str, schema_data: SchemaData,
                  mid: ModuleId) -> None:
         """Initialize the parser instance.
@@ -564,10 +568,14 @@ class FeatureExprParser(Parser):
         return x
 
     def _feature_term(self) -> bool:
+        start = self.offset
         if self.test_string("not"):
-            if not self.skip_ws():
+            if self.skip_ws():
+                return not self._feature_term()
+            if self.at_end() or not self.ident_cont_re.match(
+                    self.input, self.offset):
                 raise InvalidFeatureExpression(self)
-            return not self._feature_atom()
+            self.offset = start         # name of a feature or prefix
         return self._feature_atom()
 
     def _feature_atom(self) -> bool:
-- 
2.43.0


From b9d12ff74832ea57e672fce8c9f6369e3803ff6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:26 +0000
Subject: [PATCH 002/124] fix: do not swallow the terminator after an unquoted
 argument ending in a slash

---
 yangson/statement.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/yangson/statement.py b/yangson/statement.py
index c4872e4..74ebc59 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -368,6 +368,12 @@ class ModuleParser(Parser):
             },
             {  # state 1: comment?
                 "": lambda: 0,
+                ";": lambda: -1,
+                " ": lambda: -1,
+                "\t": lambda: -1,
+                "\r": lambda: -1,
+                "\n": lambda: -1,
+                "{": lambda: -1,
                 "/": self._back_break,
                 "*": self._back_break
             }])
-- 
2.43.0


From bd96d3bdd2f92fa1082c3bc9898cc652e999680d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:07:40 +0000
Subject: [PATCH 003/124] fix: allow min and max as single values in range and
 length expressions

---
 yangson/constraint.py | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/yangson/constraint.py b/yangson/constraint.py
index d1a94c0..639f967 100644
--- a/yangson/constraint.py
+++ b/yangson/constraint.py
@@ -99,7 +99,6 @@ class Intervals(Constraint, Generic[N]):
         def simpl(rng: list[N]) -> list[N]:
             return ([rng[0]] if rng[0] == rng[1] else rng)
 
-        def to_num(xs): return [parse(x) for x in xs]
         lo = self.intervals[0][0]
         hi = self.intervals[-1][-1]
         ran = []
@@ -108,15 +107,17 @@ class Intervals(Constraint, Generic[N]):
             if len(r) > 2:
                 raise InvalidArgument(expr)
             ran.append(r)
-        if ran[0][0] != "min":
-            lo = parse(ran[0][0])
-        if ran[-1][-1] != "max":
-            hi = parse(ran[-1][-1])
-        self.intervals = (
-            [simpl([lo, hi])] if len(ran) == 1 else (
-                [simpl([lo, parse(ran[0][-1])])] +
-                [to_num(r) for r in ran[1:-1]] +
-                [simpl([parse(ran[-1][0]), hi])]))
+        last = len(ran) - 1
+
+        def bound(x: str, index: int) -> N:
+            if x == "min" and index == 0:
+                return lo
+            if x == "max" and index == last:
+                return hi
+            return parse(x)
+        self.intervals = [
+            simpl([bound(r[0], i), bound(r[-1], i)])
+            for i, r in enumerate(ran)]
         if error_tag:
             self.error_tag = error_tag
         if error_message:
-- 
2.43.0


From b2611427a4ef6d10fa92acca8ec97d4c7cc6f806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:59 +0000
Subject: [PATCH 004/124] fix: keep bits values in canonical order and reject
 repeated bits

---
 yangson/datatype.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index ed91a47..7633596 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -282,10 +282,16 @@ class BitsType(DataType[tuple[str, ...], str]):
         self.bit: dict[str, int] = {}
 
     def __contains__(self, val: tuple[str, ...]) -> bool:
+        if not isinstance(val, tuple):
+            self._set_error_info()
+            return False
         for b in val:
             if b not in self.bit:
-                self._set_error_info(error_message="unknown bit " + b)
+                self._set_error_info(error_message=f"unknown bit {b}")
                 return False
+        if len(set(val)) < len(val):
+            self._set_error_info(error_message="duplicate bit")
+            return False
         return True
 
     def sorted_bits(self) -> list[tuple[str, int]]:
@@ -294,7 +300,8 @@ class BitsType(DataType[tuple[str, ...], str]):
 
     def from_raw(self, raw: str) -> Optional[tuple[str, ...]]:
         try:
-            return tuple(raw.split())
+            # bits are kept in the canonical order
+            return tuple(sorted(raw.split(), key=lambda b: self.bit.get(b, -1)))
         except AttributeError:
             return None
 
@@ -302,10 +309,7 @@ class BitsType(DataType[tuple[str, ...], str]):
         return self.from_raw(text)
 
     def from_xml(self, xml: ET.Element) -> Optional[tuple[str, ...]]:
-        try:
-            return tuple(cast(str, xml.text).split())
-        except AttributeError:
-            return None
+        return self.from_raw(cast(str, xml.text))
 
     def to_raw(self, val: tuple[str, ...]) -> Optional[str]:
         return self.canonical_string(val)
-- 
2.43.0


From bdc1865ee4a200fec94b5b41594bc10e54e7aa49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:13 +0000
Subject: [PATCH 005/124] fix: membership tests of types must not fail on
 values of other types

---
 yangson/datatype.py | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 7633596..e7fa592 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -556,7 +556,7 @@ class EnumerationType(DataType[str, str]):
         self.enum: dict[str, int] = {}
 
     def __contains__(self, val: str) -> bool:
-        if val in self.enum:
+        if isinstance(val, str) and val in self.enum:
             return True
         self._set_error_info()
         return False
@@ -637,7 +637,11 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
         super().__init__(sctx, name)
 
     def __contains__(self, val: ScalarValue) -> bool:
-        return val in self.ref_type
+        if val in self.ref_type:
+            return True
+        self._set_error_info(self.ref_type.error_tag,
+                             self.ref_type.error_message)
+        return False
 
     def _handle_properties(self, stmt: Statement, sctx: SchemaContext) -> None:
         super()._handle_properties(stmt, sctx)
@@ -690,13 +694,18 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         return "instance-identifier"
 
     def __contains__(self, val: InstanceRoute) -> bool:
-        return isinstance(val, InstanceRoute)
+        if isinstance(val, InstanceRoute):
+            return True
+        self._set_error_info()
+        return False
 
     def yang_type(self) -> YangIdentifier:
         """Override the superclass method."""
         return "instance-identifier"
 
     def from_raw(self, raw: InstanceIdentifier) -> Optional[InstanceRoute]:
+        if not isinstance(raw, str):
+            return None
         try:
             return InstanceIdParser(raw).parse()
         except ParserException:
@@ -734,6 +743,9 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
         self.bases: list[QualName] = []
 
     def __contains__(self, val: QualName) -> bool:
+        if not (isinstance(val, tuple) and len(val) == 2):
+            self._set_error_info()
+            return False
         for b in self.bases:
             if not self.sctx.schema_data.is_derived_from(val, b):
                 self._set_error_info(
@@ -1103,11 +1115,9 @@ class UnionType(DataType[ScalarValue, RawScalar]):
 
     def __contains__(self, val: ScalarValue) -> bool:
         for t in self.types:
-            try:
-                if val in t:
-                    return True
-            except TypeError:
-                continue
+            if val in t:
+                return True
+        self._set_error_info()
         return False
 
     def to_raw(self, val: ScalarValue) -> Optional[RawScalar]:
-- 
2.43.0


From 720c7771609ecf0249db0692d4d9803814f97805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:25 +0000
Subject: [PATCH 006/124] fix: automatic enum values and bit positions follow
 the highest one (RFC 7950, 9.6.4.2 and 9.7.4.2)

---
 yangson/datatype.py | 33 ++++++++++++---------------------
 1 file changed, 12 insertions(+), 21 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index e7fa592..0ce6694 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -338,20 +338,14 @@ class BitsType(DataType[tuple[str, ...], str]):
     def _handle_properties(self, stmt: Statement,
                            sctx: SchemaContext) -> None:
         """Handle **bit** statements."""
-        nextpos = 0
+        highest = -1
         for bst in stmt.find_all("bit"):
-            if not sctx.schema_data.if_features(bst, sctx.text_mid):
-                continue
-            label = cast(str, bst.argument)
             pst = bst.find1("position")
-            if pst:
-                pos = int(cast(str, pst.argument))
-                self.bit[label] = pos
-                if pos > nextpos:
-                    nextpos = pos
-            else:
-                self.bit[label] = nextpos
-            nextpos += 1
+            pos = int(cast(str, pst.argument)) if pst else highest + 1
+            highest = max(highest, pos)
+            # assigned positions don't depend on supported features
+            if sctx.schema_data.if_features(bst, sctx.text_mid):
+                self.bit[cast(str, bst.argument)] = pos
 
     def _handle_restrictions(self, stmt: Statement,
                              sctx: SchemaContext) -> None:
@@ -580,20 +574,17 @@ class EnumerationType(DataType[str, str]):
     def _handle_properties(self, stmt: Statement,
                            sctx: SchemaContext) -> None:
         """Handle **enum** statements."""
-        nextval = 0
+        highest: Optional[int] = None
         for est in stmt.find_all("enum"):
-            if not sctx.schema_data.if_features(est, sctx.text_mid):
-                continue
-            label = cast(str, est.argument)
             vst = est.find1("value")
             if vst:
                 val = int(cast(str, vst.argument))
-                self.enum[label] = val
-                if val > nextval:
-                    nextval = val
             else:
-                self.enum[label] = nextval
-            nextval += 1
+                val = 0 if highest is None else highest + 1
+            highest = val if highest is None else max(highest, val)
+            # assigned values don't depend on supported features
+            if sctx.schema_data.if_features(est, sctx.text_mid):
+                self.enum[cast(str, est.argument)] = val
 
     def _handle_restrictions(self, stmt: Statement,
                              sctx: SchemaContext) -> None:
-- 
2.43.0


From be9a8960fb77c20f2cfa9dffe7dcfe7a10d9d90d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:38 +0000
Subject: [PATCH 007/124] fix: decimal64 accepts only decimal notation and
 never prints exponents

---
 yangson/datatype.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 0ce6694..659b258 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -861,6 +861,9 @@ class NumericType(DataType[N, RN]):
 class Decimal64Type(NumericType[decimal.Decimal, str]):
     """Class representing YANG "decimal64" type."""
 
+    lexical = re.compile(r"[-+]?[0-9]+(\.[0-9]+)?")
+    """Regular expression for the lexical representation."""
+
     def __init__(self, sctx: SchemaContext, name: YangIdentifier) -> None:
         """Initialize the class instance."""
         super().__init__(sctx, name)
@@ -889,9 +892,10 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
 
         According to [RFC7951]_, a raw instance must be string.
         """
+        if not (isinstance(raw, str) and self.lexical.fullmatch(raw)):
+            return None
         try:
-            return (decimal.Decimal(raw).quantize(self._epsilon)
-                    if isinstance(raw, str) else None)
+            return decimal.Decimal(raw).quantize(self._epsilon)
         except decimal.InvalidOperation:
             return None
 
@@ -899,11 +903,7 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
         return self.from_raw(text)
 
     def from_xml(self, xml: ET.Element) -> Optional[decimal.Decimal]:
-        try:
-            return (decimal.Decimal(xml.text).quantize(self._epsilon)
-                    if isinstance(xml.text, str) else None)
-        except decimal.InvalidOperation:
-            return None
+        return self.from_raw(cast(str, xml.text))
 
     def to_raw(self, val: decimal.Decimal) -> str:
         return self.canonical_string(val)
@@ -916,7 +916,7 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
             return None
         if val == 0:
             return "0.0"
-        sval = str(val.quantize(self._epsilon)).rstrip("0")
+        sval = format(val.quantize(self._epsilon), "f").rstrip("0")
         return (sval + "0") if sval.endswith(".") else sval
 
     def _type_digest(self, config: bool) -> dict[str, Any]:
-- 
2.43.0


From 14e878d0a6dbab4bf176961764aef8632cb1714e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:15:52 +0000
Subject: [PATCH 008/124] fix: integers accept only the decimal notation of
 YANG

---
 yangson/datatype.py | 37 ++++++++++---------------------------
 1 file changed, 10 insertions(+), 27 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 659b258..3bcb4bc 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -931,6 +931,9 @@ class IntegralType(NumericType[int, RN]):
     octhex = re.compile("[-+]?0([x0-9])")
     """Regular expression for octal or hexadecimal default."""
 
+    lexical = re.compile("[-+]?[0-9]+")
+    """Regular expression for the decimal lexical representation."""
+
     def __contains__(self, val: int) -> bool:
         if not isinstance(val, int) or isinstance(val, bool):
             self._set_error_info()
@@ -942,10 +945,9 @@ class IntegralType(NumericType[int, RN]):
 
     def parse_value(self, text: str) -> Optional[int]:
         """Override superclass method."""
-        try:
+        if isinstance(text, str) and self.lexical.fullmatch(text):
             return int(text)
-        except ValueError:
-            return None
+        return None
 
     def from_raw(self, raw: RN) -> Optional[int]:
         if not isinstance(raw, int) or isinstance(raw, bool):
@@ -956,10 +958,7 @@ class IntegralType(NumericType[int, RN]):
             return None
 
     def from_xml(self, xml: ET.Element) -> Optional[int]:
-        try:
-            return int(xml.text) if isinstance(xml.text, str) else None
-        except (ValueError, TypeError):
-            return None
+        return self.parse_value(cast(str, xml.text))
 
     def from_yang(self, text: str) -> int:
         """Override the superclass method."""
@@ -1011,22 +1010,14 @@ class Int64Type(IntegralType[str]):
 
         According to [RFC7951]_, a raw instance must be string.
         """
-        if not isinstance(raw, str) or isinstance(raw, bool):
-            return None
-        try:
-            return int(raw)
-        except (ValueError, TypeError):
-            return None
+        return self.parse_value(raw)
 
     def from_xml(self, xml: ET.Element) -> Optional[int]:
         """Override superclass method.
 
         XML is always delivered as a text element
         """
-        try:
-            return int(xml.text) if isinstance(xml.text, str) else None
-        except (ValueError, TypeError):
-            return None
+        return self.parse_value(cast(str, xml.text))
 
     def to_raw(self, val: int) -> Optional[str]:
         return self.canonical_string(val)
@@ -1072,22 +1063,14 @@ class Uint64Type(IntegralType[str]):
 
         According to [RFC7951]_, a raw instance must be string.
         """
-        if not isinstance(raw, str):
-            return None
-        try:
-            return int(raw)
-        except (ValueError, TypeError):
-            return None
+        return self.parse_value(raw)
 
     def from_xml(self, xml: ET.Element) -> Optional[int]:
         """Override superclass method.
 
         XML is always delivered as a text element
         """
-        try:
-            return int(xml.text) if isinstance(xml.text, str) else None
-        except (ValueError, TypeError):
-            return None
+        return self.parse_value(cast(str, xml.text))
 
     def to_raw(self, val: int) -> Optional[str]:
         return self.canonical_string(val)
-- 
2.43.0


From e327923e840a3abcb20cb089d9a101b860ce4f62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:09 +0000
Subject: [PATCH 009/124] fix: reject malformed base64 data instead of failing
 on it

---
 yangson/datatype.py | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 3bcb4bc..4795c30 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -45,7 +45,6 @@ This module implements the following classes:
 """
 from abc import ABC, abstractmethod
 import base64
-import binascii
 import decimal
 import xml.etree.ElementTree as ET
 import re
@@ -515,7 +514,7 @@ class BinaryType(LinearType[bytes]):
         """Override superclass method."""
         try:
             return base64.b64decode(raw, validate=True)
-        except (TypeError, binascii.Error):
+        except (TypeError, ValueError):
             return None
 
     def parse_value(self, text: str) -> Optional[bytes]:
@@ -523,10 +522,7 @@ class BinaryType(LinearType[bytes]):
 
     def from_xml(self, xml: ET.Element) -> Optional[bytes]:
         """Override superclass method."""
-        try:
-            return base64.b64decode(cast(str, xml.text), validate=True)
-        except TypeError:
-            return None
+        return self.from_raw("".join((xml.text or "").split()))
 
     def to_raw(self, val: bytes) -> Optional[str]:
         return self.canonical_string(val)
-- 
2.43.0


From f8d3facceff1e1a2ccafe306b93bc3f6e6499842 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:16:24 +0000
Subject: [PATCH 010/124] fix: accept empty string and bits values from XML

---
 yangson/datatype.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 4795c30..8c9057f 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -308,7 +308,7 @@ class BitsType(DataType[tuple[str, ...], str]):
         return self.from_raw(text)
 
     def from_xml(self, xml: ET.Element) -> Optional[tuple[str, ...]]:
-        return self.from_raw(cast(str, xml.text))
+        return self.from_raw(xml.text or "")
 
     def to_raw(self, val: tuple[str, ...]) -> Optional[str]:
         return self.canonical_string(val)
@@ -474,7 +474,7 @@ class StringType(LinearType[str]):
         return raw if isinstance(raw, str) else None
 
     def from_xml(self, xml: ET.Element) -> Optional[str]:
-        return self.from_raw(cast(str, xml.text))
+        return self.from_raw(xml.text or "")
 
     def to_raw(self, val: str) -> Optional[str]:
         return val if val in self else None
-- 
2.43.0


From 1a420c711f443734466f9f16cb72d353bcd66a32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:15 +0000
Subject: [PATCH 011/124] fix: parse defaults of derived types in the context
 where they are defined

---
 yangson/datatype.py   | 51 +++++++++++++++++++++++++++++++------------
 yangson/schemanode.py |  9 ++++++--
 2 files changed, 44 insertions(+), 16 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 8c9057f..2aebf89 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -77,6 +77,7 @@ class DataType(ABC, Generic[S, RS]):
         """Initialize the class instance."""
         self.sctx = sctx
         self.default: Optional[S] = None
+        self._default_spec: Optional[tuple[str, SchemaContext]] = None
         self.name = name
         self.error_tag: Optional[str] = None
         self.error_message: Optional[str] = None
@@ -146,13 +147,15 @@ class DataType(ABC, Generic[S, RS]):
         """Return canonical form of a value."""
         return str(val)
 
-    def from_yang(self, text: str) -> S:
+    def from_yang(self, text: str, sctx: Optional[SchemaContext] = None) -> S:
         """Parse value specified as default in a YANG module.
 
         Conformance to the receiving type isn't guaranteed.
 
         Args:
             text: String representation of the value.
+            sctx: Schema context of the "default" statement (the context of
+                the receiver is used if absent).
 
         Raises:
             InvalidArgument: If the receiver type cannot parse the text.
@@ -175,9 +178,10 @@ class DataType(ABC, Generic[S, RS]):
     def _post_process(self, tnode: "TerminalNode") -> None:
         """Post-process the receiver type on behalf of a terminal node.
 
-        By default do nothing.
+        By default parse the default value inherited from typedefs, if any.
         """
-        pass
+        if self._default_spec is not None:
+            self.default = self.from_yang(*self._default_spec)
 
     @classmethod
     def _resolve_type(cls, stmt: Statement, sctx: SchemaContext) -> "DataType":
@@ -216,10 +220,7 @@ class DataType(ABC, Generic[S, RS]):
                 res.units = ust.argument
             dfst = tdef.find1("default")
             if dfst:
-                dval = cast(str, dfst.argument)
-                res.default = res.from_yang(dval)
-                if res.default is None:
-                    raise InvalidArgument(dval)
+                res._default_spec = (cast(str, dfst.argument), tsc)
         res._handle_restrictions(stmt, sctx)
         return res
 
@@ -653,8 +654,9 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
     def parse_value(self, text: str) -> Optional[ScalarValue]:
         return self.ref_type.parse_value(text)
 
-    def from_yang(self, text: str) -> ScalarValue:
-        return self.ref_type.from_yang(text)
+    def from_yang(self, text: str,
+                  sctx: Optional[SchemaContext] = None) -> ScalarValue:
+        return self.ref_type.from_yang(text, sctx if sctx else self.sctx)
 
     def _deref(self, node: InstanceNode) -> list[InstanceNode]:
         ns = self.path.evaluate(node)
@@ -667,6 +669,10 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
         if ref is None:
             raise InvalidLeafrefPath(tnode.qual_name, str(self.path))
         self.ref_type = ref.type
+        if (isinstance(self.ref_type, LeafrefType) and
+                not hasattr(self.ref_type, "ref_type")):
+            self.ref_type._post_process(ref)
+        super()._post_process(tnode)
 
     def _type_digest(self, config: bool) -> dict[str, Any]:
         res = super()._type_digest(config)
@@ -712,9 +718,11 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         """Override the superclass method."""
         return str(val)
 
-    def from_yang(self, text: str) -> InstanceRoute:
+    def from_yang(self, text: str,
+                  sctx: Optional[SchemaContext] = None) -> InstanceRoute:
         """Override the superclass method."""
-        return XPathParser(text, self.sctx).parse().as_instance_route()
+        return XPathParser(
+            text, sctx if sctx else self.sctx).parse().as_instance_route()
 
     @staticmethod
     def _deref(node: InstanceNode) -> list[InstanceNode]:
@@ -779,11 +787,12 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
     def to_xml(self, val: QualName) -> YangIdentifier:
         return self.canonical_string(val)
 
-    def from_yang(self, text: YangIdentifier) -> QualName:
+    def from_yang(self, text: YangIdentifier,
+                  sctx: Optional[SchemaContext] = None) -> QualName:
         """Override the superclass method."""
         try:
             return self.sctx.schema_data.translate_pname(
-                text, self.sctx.text_mid)
+                text, (sctx if sctx else self.sctx).text_mid)
         except (ModuleNotRegistered, UnknownPrefix):
             raise InvalidArgument(text)
 
@@ -956,7 +965,8 @@ class IntegralType(NumericType[int, RN]):
     def from_xml(self, xml: ET.Element) -> Optional[int]:
         return self.parse_value(cast(str, xml.text))
 
-    def from_yang(self, text: str) -> int:
+    def from_yang(self, text: str,
+                  sctx: Optional[SchemaContext] = None) -> int:
         """Override the superclass method."""
         mo = self.octhex.match(text)
         if mo:
@@ -1129,6 +1139,18 @@ class UnionType(DataType[ScalarValue, RawScalar]):
                 return val
         return None
 
+    def from_yang(self, text: str,
+                  sctx: Optional[SchemaContext] = None) -> ScalarValue:
+        """Override the superclass method."""
+        for t in self.types:
+            try:
+                val = t.from_yang(text, sctx if sctx else self.sctx)
+            except (InvalidArgument, ParserException):
+                continue
+            if val in t:
+                return val
+        raise InvalidArgument(text)
+
     def _handle_properties(self, stmt: Statement,
                            sctx: SchemaContext) -> None:
         self.types = [self._resolve_type(ts, sctx)
@@ -1137,6 +1159,7 @@ class UnionType(DataType[ScalarValue, RawScalar]):
     def _post_process(self, tnode: "TerminalNode") -> None:
         for t in self.types:
             t._post_process(tnode)
+        super()._post_process(tnode)
 
 
 DataType.dtypes = {"binary": BinaryType,
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 12d83df..00e21ff 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1018,6 +1018,7 @@ class TerminalNode(SchemaNode):
         super().__init__()
         self.type: DataType = None
         self._default: Optional[Value] = None
+        self._default_sctx: Optional[SchemaContext] = None
         self._units: Optional[str] = None
 
     def content_type(self) -> ContentType:
@@ -1571,7 +1572,8 @@ class LeafNode(DataNode, TerminalNode):
         if self._mandatory:
             self.parent._add_mandatory_child(self)
         elif self._default is not None:
-            self._default = self.type.from_yang(self._default)
+            self._default = self.type.from_yang(
+                self._default, self._default_sctx)
 
     def _tree_line(self, no_type: bool = False) -> str:
         res = super()._tree_line() + ("" if self._mandatory else "?")
@@ -1579,6 +1581,7 @@ class LeafNode(DataNode, TerminalNode):
 
     def _default_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         self._default = stmt.argument
+        self._default_sctx = sctx
 
     def _deviate_default(self, stmt: Statement,
                          sctx: SchemaContext, action: str) -> None:
@@ -1610,6 +1613,7 @@ class LeafListNode(SequenceNode, TerminalNode):
             raise SemanticError(inst, "repeated-leaf-list-value")
 
     def _default_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
+        self._default_sctx = sctx
         if self._default is None:
             self._default = [stmt.argument]
         else:
@@ -1632,7 +1636,8 @@ class LeafListNode(SequenceNode, TerminalNode):
         super()._post_process()
         if self._default is not None:
             self._default = ArrayValue(
-                [self.type.from_yang(v) for v in self._default])
+                [self.type.from_yang(v, self._default_sctx)
+                 for v in self._default])
 
     def _tree_line(self, no_type: bool = False) -> str:
         res = super()._tree_line()
-- 
2.43.0


From 19e5be344df2bcf5eedc1458e9c8b0b73b5cfa19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:32 +0000
Subject: [PATCH 012/124] fix: deviation deleting a leaf-list default

---
 yangson/schemanode.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 00e21ff..a62e3d3 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1626,11 +1626,11 @@ class LeafListNode(SequenceNode, TerminalNode):
                 self._default = []
             self._default_stmt(stmt, sctx)
         elif action == "delete":
-            val = self.type.parse_value(stmt.argument)
-            for i in range(len(self._default)):
-                if self._default[i] == val:
-                    del self._default[i]
-                    return
+            # defaults aren't parsed until the schema is complete
+            if self._default and stmt.argument in self._default:
+                self._default.remove(stmt.argument)
+                if not self._default:
+                    self._default = None
 
     def _post_process(self) -> None:
         super()._post_process()
-- 
2.43.0


From 196431edc38f0ac1bf5b74e7c8a886f9a596699d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:30 +0000
Subject: [PATCH 013/124] fix: XPath sees default values inside an active
 non-default case

---
 yangson/instance.py   |  4 ++--
 yangson/schemanode.py | 41 ++++++++++++++++++++++++++---------------
 2 files changed, 28 insertions(+), 17 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 0d9a575..a4eb516 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -673,8 +673,8 @@ class InstanceNode:
                 if cn is sn:
                     return wd._member(iname)._node_set()
                 if (cn.when and not cn.when.evaluate(self) or
-                    isinstance(cn, CaseNode) and
-                        cn.qual_name != cn.parent.default_case):
+                        isinstance(cn, CaseNode) and
+                        not cn._in_effect(self.value)):
                     return []
         res = []
         wd = sn._add_defaults(self, ContentType.all, lazy=True)
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index a62e3d3..a95b67a 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1466,25 +1466,29 @@ class ChoiceNode(InternalNode):
                       ctype: Optional[ContentType]) -> InstanceNode:
         if self.when and not self.when.evaluate(inst):
             return inst
-        ac = self._active_case(inst.value)
-        if ac:
-            return ac._add_defaults(inst, ctype)
-        elif self.default_case:
-            n = dc = self.get_child(*self.default_case)
-            while n is not self:
-                if n.when and not n.when.evaluate(inst):
-                    return inst
-                n = n.parent
-            return dc._add_defaults(inst, ctype)
-        else:
+        n = ec = self._effective_case(inst.value)
+        if ec is None:
             return inst
+        while n is not self:
+            if n.when and not n.when.evaluate(inst):
+                return inst
+            n = n.parent
+        return ec._add_defaults(inst, ctype)
 
     def _active_case(self, value: ObjectValue) -> Optional["CaseNode"]:
         """Return receiver's case that's active in an instance node value."""
-        for c in self.children:
-            for cc in c.data_children():
-                if cc.iname() in value:
-                    return c
+        for ch in self.children:
+            for c in ch._flatten():
+                for cc in c.data_children():
+                    if cc.iname() in value:
+                        return c
+
+    def _effective_case(self, value: ObjectValue) -> Optional["CaseNode"]:
+        """Return the case whose defaults are in use in an instance value."""
+        ac = self._active_case(value)
+        if ac is None and self.default_case:
+            return self.get_child(*self.default_case)
+        return ac
 
     def _pattern_entry(self) -> SchemaPattern:
         if not self.children:
@@ -1537,6 +1541,13 @@ class ChoiceNode(InternalNode):
 class CaseNode(InternalNode):
     """Case node."""
 
+    def _in_effect(self, value: ObjectValue) -> bool:
+        """Return ``True`` if the receiver's defaults are in use."""
+        ch = self.parent
+        while not isinstance(ch, ChoiceNode):
+            ch = ch.parent
+        return ch._effective_case(value) is self
+
     def _pattern_entry(self) -> SchemaPattern:
         return super()._schema_pattern()
 
-- 
2.43.0


From ff40d713337334208a40f5e70c0d3d64328e0778 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:46 +0000
Subject: [PATCH 014/124] fix: do not add defaults of a uses or augment whose
 when condition is false

---
 yangson/schemanode.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index a95b67a..bde272e 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -888,6 +888,13 @@ class GroupNode(InternalNode):
     def _pattern_entry(self) -> SchemaPattern:
         return super()._schema_pattern()
 
+    def _add_defaults(self, inst: InstanceNode, ctype: Optional[ContentType],
+                      lazy: bool = False) -> InstanceNode:
+        """Extend the superclass method."""
+        if self.when and not self.when.evaluate(inst):
+            return inst
+        return super()._add_defaults(inst, ctype, lazy)
+
     def _flatten(self) -> list[SchemaNode]:
         res = []
         for c in self.children:
-- 
2.43.0


From 01c538f90040aa1596779e421637105858e94a87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:59 +0000
Subject: [PATCH 015/124] fix: schema patterns of choices with one case,
 optional cases or augmented conditional cases

---
 yangson/schemanode.py | 25 +++++++++++++++++++------
 yangson/schpattern.py |  7 +++++--
 2 files changed, 24 insertions(+), 8 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index bde272e..15314a5 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -662,8 +662,8 @@ class InternalNode(SchemaNode):
                     "member-not-allowed", m)
             p = newp
         if not p.nullable(ctype):
-            mms = p._mandatory_members(ctype)
-            msg = "one of " if len(mms) > 1 else ""
+            mms = p._mandatory_members(ctype) or []
+            msg = "one of " if len(mms) > 1 else "" if mms else "more data"
             raise SchemaError(
                 inst, "missing-data",
                 "expected " + msg + ", ".join([repr(m) for m in mms]))
@@ -1498,16 +1498,29 @@ class ChoiceNode(InternalNode):
         return ac
 
     def _pattern_entry(self) -> SchemaPattern:
-        if not self.children:
+        cases = self._case_patterns(self)
+        if not cases:
             return Empty()
-        prev = self.children[0]._schema_pattern()
-        for c in self.children[1:]:
-            prev = ChoicePattern(c._schema_pattern(), prev, self.name)
+        prev = NotAllowed()
+        for c in cases:
+            prev = ChoicePattern(c, prev, self.name)
         prev.ctype = self.content_type()
         if not self.mandatory:
             prev = SchemaPattern.optional(prev)
         return ConditionalPattern(prev, self.when) if self.when else prev
 
+    def _case_patterns(self, node: InternalNode) -> list[SchemaPattern]:
+        """Return the list of schema patterns of all cases under `node`."""
+        res = []
+        for c in node.children:
+            if isinstance(c, GroupNode):    # cases from a conditional augment
+                res.extend(
+                    [ConditionalPattern(p, c.when) if c.when else p
+                     for p in self._case_patterns(c)])
+            else:
+                res.append(c._schema_pattern())
+        return res
+
     def _post_process(self) -> None:
         super()._post_process()
         if self.mandatory:
diff --git a/yangson/schpattern.py b/yangson/schpattern.py
index 7a53ce9..63eee9d 100644
--- a/yangson/schpattern.py
+++ b/yangson/schpattern.py
@@ -280,8 +280,11 @@ class ChoicePattern(Alternative, Typeable):
                 f"Choice {self.name}\n{self.left.tree(indent + 2)}\n"
                 f"{self.right.tree(indent + 2)}")
 
-    def _members(self, ctype: ContentType) -> list[InstanceName]:
-        return super()._members(ctype) if self._active(ctype) else []
+    def _mandatory_members(
+            self, ctype: ContentType) -> Optional[list[InstanceName]]:
+        if self._active(ctype):
+            return ((self.left._mandatory_members(ctype) or []) +
+                    (self.right._mandatory_members(ctype) or []))
 
 
 class Pair(SchemaPattern):
-- 
2.43.0


From b5b44dbf6648ddfb48b0b52b0c81386e03af8399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:12 +0000
Subject: [PATCH 016/124] fix: resolve when conditions without shared state and
 take them into account in absent containers

---
 yangson/schemanode.py | 10 ++---
 yangson/schpattern.py | 95 ++++++++++++++++++++++++++++---------------
 2 files changed, 68 insertions(+), 37 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 15314a5..7da2ff1 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -60,7 +60,8 @@ from .instroute import InstanceRoute
 from .instvalue import (
     ArrayValue, EntryValue, MetadataObject, ObjectValue, Value)
 from .schemadata import IdentityAdjacency, SchemaContext, SchemaData
-from .schpattern import (ChoicePattern, ConditionalPattern, Empty, Member,
+from .schpattern import (ChoicePattern, ConditionalPattern, Empty,
+                         ImplicitMember, Member,
                          NotAllowed, Pair, SchemaPattern)
 from .statement import Statement
 from .typealiases import (DataPath, InstanceName, JSONPointer, QualName,
@@ -651,8 +652,7 @@ class InternalNode(SchemaNode):
 
     def _check_schema_pattern(self, inst: InstanceNode,
                               ctype: ContentType) -> None:
-        p = self.schema_pattern
-        p._eval_when(inst)
+        p = self.schema_pattern._eval_when(inst)
         for m in inst:
             newp = p.deriv(m, ctype)
             if isinstance(newp, NotAllowed):
@@ -1162,8 +1162,8 @@ class ContainerNode(DataNode, InternalNode):
         if self._status == NodeStatus.deprecated:
             return SchemaPattern.optional(m)
         if self.mandatory:
-            return (m if self.mandatory_config else
-                    SchemaPattern.optional_config(m))
+            return ImplicitMember(
+                self.iname(), self.content_type(), self.when, self)
         else:
             return SchemaPattern.optional(m)
 
diff --git a/yangson/schpattern.py b/yangson/schpattern.py
index 63eee9d..0645004 100644
--- a/yangson/schpattern.py
+++ b/yangson/schpattern.py
@@ -18,10 +18,12 @@
 """This module defines classes for schema patterns."""
 from typing import Optional, TYPE_CHECKING
 from .enumerations import ContentType
+from .instvalue import ObjectValue
 from .typealiases import InstanceName, _Singleton, YangIdentifier
 from .xpathast import Expr
 if TYPE_CHECKING:
     from .instance import InstanceNode
+    from .schemanode import ContainerNode
 
 
 class SchemaPattern:
@@ -49,8 +51,16 @@ class SchemaPattern:
         """Return ``True`` if the receiver is active in the current context."""
         return True
 
-    def _eval_when(self, cnode: "InstanceNode") -> None:
-        return
+    def _eval_when(self, cnode: "InstanceNode") -> "SchemaPattern":
+        """Return the receiver with "when" conditions resolved.
+
+        The receiver itself is shared by all validations that may be running
+        in parallel, so it must not be changed.
+
+        Args:
+            cnode: Instance node in whose context the conditions are evaluated.
+        """
+        return self
 
     def _mandatory_members(
             self, ctype: ContentType) -> Optional[list[InstanceName]]:
@@ -117,23 +127,9 @@ class NotAllowed(SchemaPattern, metaclass=_Singleton):
 class Conditional(SchemaPattern):
     """Class representing conditional pattern."""
 
-    def __init__(self, when: Expr) -> None:
+    def __init__(self, when: Optional[Expr]) -> None:
         """Initialize the class instance."""
         self.when = when
-        self._val_when: Optional[bool] = None
-
-    def empty(self) -> bool:
-        """Override the superclass method."""
-        return self.when and not self._val_when
-
-    def check_when(self) -> bool:
-        return not self.when or self._val_when
-
-    def _eval_when(self, cnode: "InstanceNode") -> None:
-        self._val_when = bool(self.when.evaluate(cnode))
-
-    def _active(self, ctype: ContentType) -> bool:
-        return super()._active(ctype) and self.check_when()
 
 
 class Typeable(SchemaPattern):
@@ -158,18 +154,17 @@ class ConditionalPattern(Conditional):
         super().__init__(when)
         self.pattern = p
 
-    def _eval_when(self, cnode: "InstanceNode") -> None:
-        super()._eval_when(cnode)
-        self.pattern._eval_when(cnode)
+    def _eval_when(self, cnode: "InstanceNode") -> SchemaPattern:
+        return (self.pattern._eval_when(cnode)
+                if self.when.evaluate(cnode) else Empty())
 
     def nullable(self, ctype: ContentType) -> bool:
         """Override the superclass method."""
-        return (not self.check_when() or self.pattern.nullable(ctype))
+        return self.pattern.nullable(ctype)
 
     def deriv(self, x: str, ctype: ContentType) -> SchemaPattern:
         """Return derivative of the receiver."""
-        return (self.pattern.deriv(x, ctype) if self.check_when() else
-                NotAllowed())
+        return self.pattern.deriv(x, ctype)
 
     def tree(self, indent: int = 0):
         return (" " * indent + "Conditional\n" +
@@ -191,10 +186,12 @@ class Member(Typeable, Conditional):
         Conditional.__init__(self, when)
         self.name = name
 
-    def _eval_when(self, cnode: "InstanceNode") -> None:
+    def _eval_when(self, cnode: "InstanceNode") -> SchemaPattern:
         if self.when:
             dummy = cnode.put_member(self.name, (None,))
-            super()._eval_when(dummy)
+            return (Member(self.name, self.ctype, None)
+                    if self.when.evaluate(dummy) else Empty())
+        return self
 
     def nullable(self, ctype: ContentType) -> bool:
         """Override the superclass method."""
@@ -217,6 +214,35 @@ class Member(Typeable, Conditional):
             return [self.name]
 
 
+class ImplicitMember(Member):
+    """Non-presence container: it is required if its contents is."""
+
+    def __init__(self, name: InstanceName, ctype: ContentType,
+                 when: Optional[Expr], node: "ContainerNode",
+                 content: Optional[SchemaPattern] = None) -> None:
+        super().__init__(name, ctype, when)
+        self.node = node
+        self.content = content
+
+    def _eval_when(self, cnode: "InstanceNode") -> SchemaPattern:
+        res = super()._eval_when(cnode)
+        if res is Empty() or self.name in cnode.value:
+            return res
+        inst = cnode.put_member(self.name, ObjectValue())
+        return ImplicitMember(
+            self.name, self.ctype, None, self.node,
+            self.node.schema_pattern._eval_when(inst))
+
+    def nullable(self, ctype: ContentType) -> bool:
+        """Extend the superclass method."""
+        return super().nullable(ctype) or (
+            self.content is not None and self.content.nullable(ctype))
+
+    def _mandatory_members(self, ctype: ContentType) -> list[InstanceName]:
+        if not self.nullable(ctype):
+            return super()._mandatory_members(ctype)
+
+
 class Alternative(SchemaPattern):
 
     @classmethod
@@ -231,10 +257,9 @@ class Alternative(SchemaPattern):
         self.left = p
         self.right = q
 
-    def _eval_when(self, cnode: "InstanceNode") -> None:
-        super()._eval_when(cnode)
-        self.left._eval_when(cnode)
-        self.right._eval_when(cnode)
+    def _eval_when(self, cnode: "InstanceNode") -> SchemaPattern:
+        return Alternative(self.left._eval_when(cnode),
+                           self.right._eval_when(cnode))
 
     def nullable(self, ctype: ContentType) -> bool:
         """Override the superclass method."""
@@ -268,6 +293,12 @@ class ChoicePattern(Alternative, Typeable):
         self.ctype: ContentType = ContentType.all
         self.name = name
 
+    def _eval_when(self, cnode: "InstanceNode") -> SchemaPattern:
+        res = ChoicePattern(self.left._eval_when(cnode),
+                            self.right._eval_when(cnode), self.name)
+        res.ctype = self.ctype
+        return res
+
     def nullable(self, ctype: ContentType):
         return not self.match_ctype(ctype)
 
@@ -316,9 +347,9 @@ class Pair(SchemaPattern):
             Pair.combine(self.left.deriv(x, ctype), self.right),
             Pair.combine(self.right.deriv(x, ctype), self.left))
 
-    def _eval_when(self, cnode: "InstanceNode") -> None:
-        self.left._eval_when(cnode)
-        self.right._eval_when(cnode)
+    def _eval_when(self, cnode: "InstanceNode") -> SchemaPattern:
+        return Pair(self.left._eval_when(cnode),
+                    self.right._eval_when(cnode))
 
     def tree(self, indent: int = 0):
         return (" " * indent + "Pair\n" +
-- 
2.43.0


From 3288f3eceb439bedbfb3f6fa7a5fad9f4ef82ace Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:29 +0000
Subject: [PATCH 017/124] fix: config true in refine and deviate replace

---
 yangson/schemanode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 7da2ff1..f73fea2 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -313,8 +313,8 @@ class SchemaNode:
         pass
 
     def _config_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-        if stmt.argument == "false":
-            self._ctype = ContentType.nonconfig
+        self._ctype = (ContentType.nonconfig if stmt.argument == "false"
+                       else None)
 
     def _status_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         if stmt.argument == "deprecated":
-- 
2.43.0


From 87981d22fb58e169ac1bb2360d7efb111ee5d3cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:45 +0000
Subject: [PATCH 018/124] fix: deviations deleting unique and must

---
 yangson/schemanode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index f73fea2..474a00b 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -347,6 +347,8 @@ class SchemaNode:
 
     def _deviate_must(self, stmt: Statement,
                       sctx: SchemaContext, action: str) -> None:
+        # unprefixed names belong to the namespace of the context node
+        sctx = SchemaContext(sctx.schema_data, self.ns, sctx.text_mid)
         if action in ("add", "replace"):
             if action == "replace":
                 self.must = []
@@ -1432,9 +1434,9 @@ class ListNode(SequenceNode, InternalNode):
                 self.unique = []
             self._unique_stmt(stmt, sctx)
         elif action == "delete":
-            uniq = self._parse_unique(stmt, sctx)
+            uniq = [str(u) for u in self._parse_unique(stmt, sctx)]
             for i in range(len(self.unique)):
-                if self.unique[i] == uniq:
+                if [str(u) for u in self.unique[i]] == uniq:
                     del self.unique[i]
                     return
 
-- 
2.43.0


From 360c25ddadb2e5132fcd7e82b2ed7c286a02e546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:59 +0000
Subject: [PATCH 019/124] fix: refine and deviate replace set all defaults of a
 leaf-list

---
 yangson/schemanode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 474a00b..a9dc1b7 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -762,6 +762,8 @@ class InternalNode(SchemaNode):
         if not sctx.schema_data.if_features(stmt, sctx.text_mid):
             target.parent.children.remove(target)
         else:
+            if isinstance(target, LeafListNode) and stmt.find1("default"):
+                target._default = None
             target._handle_substatements(stmt, sctx)
 
     def _uses_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
@@ -1655,8 +1657,8 @@ class LeafListNode(SequenceNode, TerminalNode):
     def _deviate_default(self, stmt: Statement,
                          sctx: SchemaContext, action: str) -> None:
         if action in ("add", "replace"):
-            if action == "replace":
-                self._default = []
+            if action == "replace" and stmt is stmt.superstmt.find1("default"):
+                self._default = None
             self._default_stmt(stmt, sctx)
         elif action == "delete":
             # defaults aren't parsed until the schema is complete
-- 
2.43.0


From b9a1ad5a6d60f88839131b8e3e2f665d7fc5a92e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:19 +0000
Subject: [PATCH 020/124] fix: values of different member types are different
 keys, unique values and leaf-list entries

---
 yangson/schemanode.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index a9dc1b7..7d87751 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -82,6 +82,11 @@ class Annotation:
         self.description = description
 
 
+def _typed(value: ScalarValue) -> tuple[type, ScalarValue]:
+    """Tell apart union values that Python considers equal, e.g. 1 and True."""
+    return (type(value), value)
+
+
 class SchemaNode:
     """Abstract class for all schema nodes."""
 
@@ -1372,13 +1377,14 @@ class ListNode(SequenceNode, InternalNode):
             en = inst.value[i]
             try:
                 kval = tuple([en[k] for k in self._key_members])
+                tkval = tuple([_typed(k) for k in kval])
             except KeyError as e:
                 raise SchemaError(inst._entry(i),
                                   "list-key-missing", e.args[0]) from None
-            if kval in ukeys:
+            if tkval in ukeys:
                 raise SemanticError(inst, "non-unique-key",
                                     repr(kval[0] if len(kval) < 2 else kval))
-            ukeys.add(kval)
+            ukeys.add(tkval)
 
     def _check_unique(self, unique: list[LocationPath],
                       inst: InstanceNode) -> None:
@@ -1388,7 +1394,7 @@ class ListNode(SequenceNode, InternalNode):
             den = en.add_defaults()
             uvals = []
             for uex in unique:
-                uval = [n.value for n in uex.evaluate(den)]
+                uval = [_typed(n.value) for n in uex.evaluate(den)]
                 uvals.append(uval)
             tups = set(product(*uvals))
             if tups & allvals:
@@ -1644,7 +1650,7 @@ class LeafListNode(SequenceNode, TerminalNode):
 
     def _check_list_props(self, inst: InstanceNode) -> None:
         if (self.content_type() == ContentType.config and
-                len(set(inst.value)) < len(inst.value)):
+                len({_typed(v) for v in inst.value}) < len(inst.value)):
             raise SemanticError(inst, "repeated-leaf-list-value")
 
     def _default_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-- 
2.43.0


From 4b5e7efd09de901089555ced27e3419f294a34de Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:31:31 +0000
Subject: [PATCH 021/124] fix: conditional uses and augment may make a
 container mandatory

---
 yangson/schemanode.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 7d87751..9c94617 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -897,6 +897,11 @@ class GroupNode(InternalNode):
     def _pattern_entry(self) -> SchemaPattern:
         return super()._schema_pattern()
 
+    def _add_mandatory_child(self, node: SchemaNode) -> None:
+        super()._add_mandatory_child(node)
+        if self.parent is not None:
+            self.parent._add_mandatory_child(node)
+
     def _add_defaults(self, inst: InstanceNode, ctype: Optional[ContentType],
                       lazy: bool = False) -> InstanceNode:
         """Extend the superclass method."""
-- 
2.43.0


From 6cb9e45d8f7a70fe780e0dff1bcf7ab131d5b9a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:23 +0000
Subject: [PATCH 022/124] fix: instance route of a list entry with an invalid
 key value

---
 yangson/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index a4eb516..8f9c674 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -979,7 +979,7 @@ class ArrayEntry(InstanceNode):
                     kdict[(k[0], None)] = str(self[k[0]])
                 else:
                     kdict[k] = str(self[f"{k[1]}:{k[0]}"])
-            except NonexistentInstance:
+            except (NonexistentInstance, YangTypeError):
                 return EntryIndex(self._key)
         return EntryKeys(kdict)
 
-- 
2.43.0


From 18ba79eb8c8cdf418ef903c2708f56bb35ec076c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:17 +0000
Subject: [PATCH 023/124] fix: skip metadata annotations when walking XPath
 children

---
 yangson/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 8f9c674..f064061 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -678,7 +678,7 @@ class InstanceNode:
                     return []
         res = []
         wd = sn._add_defaults(self, ContentType.all, lazy=True)
-        for mn in wd.value:
+        for mn in wd._member_names():
             res.extend(wd._member(mn)._node_set())
         return res
 
-- 
2.43.0


From 14622b0fbc70957de554968794ad4d283fba8133 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:09:36 +0000
Subject: [PATCH 024/124] fix: keep empty list entries in the raw value

---
 yangson/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index f064061..2af77c8 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -504,7 +504,7 @@ class InstanceNode:
                     member_value = en.raw_value(filter)
                 add2 = filter.end_element(self, en, e_attr)
                 if (add1 and add2 and member_value is not None
-                        and member_value != {}):
+                        and (member_value != {} or not en.value)):
                     if e_attr:
                         member_value['@'] = e_attr
                     value.append(member_value)
-- 
2.43.0


From 7ad4db960f768fc193f52cf775971d4a1f735567 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:18:40 +0000
Subject: [PATCH 025/124] fix: merge returns the result without changing the
 receiver and handles entries, keyless lists and anyxml

---
 yangson/instance.py | 32 ++++++++++++++++++++++----------
 1 file changed, 22 insertions(+), 10 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 2af77c8..30051f7 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -310,44 +310,56 @@ class InstanceNode:
         Returns:
             Copy of the receiver with the merged value.
         """
-        if (isinstance(self.schema_node, (LeafNode, AnydataNode)) or
-                not self.value):
+        if (not isinstance(self.value, StructuredValue) or not self.value or
+                isinstance(self.schema_node, AnyContentNode)):
             return self.update(value, raw)
-        newval = self.schema_node.from_raw(
-            value, self.json_pointer()) if raw else value
+        newval = self._cook_value(value, raw)
         if isinstance(self.value, ArrayValue):
             return self._merge_list(newval)
         return self._merge_container(newval)
 
     def _merge_list(self, value: ArrayValue) -> "InstanceNode":
-        inst = self._copy(self.value)
+        inst = self._copy(self.value.copy())
         if isinstance(self.schema_node, LeafListNode):
+            present = {(type(en), en) for en in self.value}
             inst.value += [
-                en for en in value if en in set(value) - set(self.value)]
+                en for en in value if (type(en), en) not in present]
             return inst
         keys = self.schema_node._key_members
+        if not keys:
+            inst.value += value
+            return inst
         mki = {}
         for i in range(len(value)):
-            mki[tuple([value[i][k] for k in keys])] = i
+            mki[self._key_values(value[i], keys)] = i
         for i in range(len(self.value)):
-            kval = tuple([self.value[i][k] for k in keys])
+            kval = self._key_values(self.value[i], keys)
             if kval in mki:
                 inst = inst[i].merge(value[mki[kval]]).up()
                 del mki[kval]
         inst.value += [value[i] for i in sorted(mki.values())]
         return inst
 
+    @staticmethod
+    def _key_values(entry: ObjectValue, keys: list[InstanceName]) -> tuple:
+        """Return the key values of a list entry (with their types)."""
+        return tuple([(type(entry.get(k)), entry.get(k)) for k in keys])
+
     def _merge_container(self, value: ObjectValue) -> "InstanceNode":
-        inst = self._copy(self.value)
+        inst = self._copy(self.value.copy())
         rest = []
         for k in value:
-            if k in self.value:
+            if k in self.value and not k.startswith("@"):
                 inst = inst[k].merge(value[k]).up()
             else:
                 rest.append(k)
         inst.value.update({k: value[k] for k in rest})
         return inst
 
+    def _cook_value(self, value: Union[RawValue, Value], raw: bool) -> Value:
+        return self.schema_node.from_raw(
+            value, self.json_pointer()) if raw else value
+
     def goto(self, iroute: "InstanceRoute") -> "InstanceNode":
         """Move the focus to an instance inside the receiver's value.
 
-- 
2.43.0


From 16cc4766e378dd1e244fb161dae3bd18292cb4d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:00 +0000
Subject: [PATCH 026/124] fix: index of an entry inserted after another one

---
 yangson/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 30051f7..ec31647 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -953,7 +953,7 @@ class ArrayEntry(InstanceNode):
         nbef = self.before.copy()
         nbef.appendleft(self.value)
         return ArrayEntry(
-            self.index, nbef, self.after, self._cook_value(value, raw),
+            self.index + 1, nbef, self.after, self._cook_value(value, raw),
             self.parinst, self.schema_node, datetime.now())
 
     def _cook_value(self, value: Union[RawValue, Value], raw: bool) -> Value:
-- 
2.43.0


From 1482bf474962b188c8cc7392645a99239f57d1bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:20 +0000
Subject: [PATCH 027/124] fix: accept redundantly qualified names in
 put_member, delete_item and sibling

---
 yangson/instance.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index ec31647..0567fd5 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -209,10 +209,12 @@ class InstanceNode:
         """
         if not isinstance(self.value, ObjectValue):
             raise InstanceValueError(self, "member of non-object")
+        name = self._member_key(name)
         csn = self._member_schema_node(name)
         newval = self.value.copy()
-        newval[name] = (csn.from_raw(value, self.json_pointer()) if raw
-                        else value)
+        newval[name] = (
+            csn.from_raw(value, self.json_pointer().rstrip("/") + "/" + name)
+            if raw else value)
         return self._copy(newval)._member(name)
 
     def delete_item(self, key: InstanceKey) -> "InstanceNode":
@@ -228,6 +230,8 @@ class InstanceNode:
         if not isinstance(self.value, StructuredValue):
             raise InstanceValueError(self, "scalar value")
         newval = self.value.copy()
+        if isinstance(newval, ObjectValue) and isinstance(key, str):
+            key = self._member_key(key)
         try:
             del newval[key]
         except (KeyError, IndexError, TypeError):
@@ -620,10 +624,13 @@ class InstanceNode:
         if isinstance(self.value, ObjectValue):
             return [m for m in self.value if not m.startswith("@")]
 
-    def _member(self, name: InstanceName) -> "ObjectMember":
+    def _member_key(self, name: InstanceName) -> InstanceName:
+        """Return the key under which member `name` is kept."""
         pts = name.partition(":")
-        if pts[1] and pts[0] == self.namespace:
-            name = pts[2]
+        return pts[2] if pts[1] and pts[0] == self.namespace else name
+
+    def _member(self, name: InstanceName) -> "ObjectMember":
+        name = self._member_key(name)
         sibs = self.value.copy()
         try:
             return ObjectMember(
@@ -807,6 +814,7 @@ class ObjectMember(InstanceNode):
                 schema.
             NonexistentInstance: If sibling member `name` doesn't exist.
         """
+        name = self.parinst._member_key(name)
         ssn = self.parinst._member_schema_node(name)
         try:
             sibs = self.siblings.copy()
-- 
2.43.0


From 5b7752b71a4e31bcd91b115cc11dd2ccae8c734c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:19:36 +0000
Subject: [PATCH 028/124] fix: look_up on a list entry raises the documented
 exception

---
 yangson/instance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 0567fd5..68bef03 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -250,7 +250,8 @@ class InstanceNode:
             InstanceValueError: If the receiver's value is not a YANG list.
             NonexistentInstance: If no entry with matching keys exists.
         """
-        if not isinstance(self.schema_node, ListNode):
+        if not (isinstance(self.schema_node, ListNode) and
+                isinstance(self.value, ArrayValue)):
             raise InstanceValueError(self, "lookup on non-list")
         if raw:
             for k in keys:
-- 
2.43.0


From 01ca83f8a9b49033772bf1acfa407f0262c6db24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 029/124] fix: raw update of the root node reads top-level
 members and reports correct paths

---
 yangson/instance.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 68bef03..f940168 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -300,9 +300,7 @@ class InstanceNode:
         Returns:
             Copy of the receiver with the updated value.
         """
-        newval = self.schema_node.from_raw(
-            value, self.json_pointer()) if raw else value
-        return self._copy(newval)
+        return self._copy(self._cook_value(value, raw))
 
     def merge(self, value: Union[RawValue, Value],
               raw: bool = False) -> "InstanceNode":
@@ -770,6 +768,9 @@ class RootNode(InstanceNode):
             return et[0]
         return et
 
+    def _cook_value(self, value: Union[RawValue, Value], raw: bool) -> Value:
+        return self.schema_node.from_raw(value) if raw else value
+
     def _copy(self, newval: Value, newts: datetime = None) -> InstanceNode:
         return RootNode(newval, self.schema_node, self.schema_data,
                         newts if newts else newval.timestamp)
-- 
2.43.0


From 44d4f717778dce06cf4e8549f09df5b2e9c42a52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:34 +0000
Subject: [PATCH 030/124] fix: equality and hash of structured values tell
 apart different contents (-1 and -2, 1 and true) and accept annotations

---
 docs/instvalue.rst   |  3 +--
 yangson/instvalue.py | 39 ++++++++++++++++++++++++++++++++++-----
 2 files changed, 35 insertions(+), 7 deletions(-)

diff --git a/docs/instvalue.rst b/docs/instvalue.rst
index ce7e6cd..a8c6df4 100644
--- a/docs/instvalue.rst
+++ b/docs/instvalue.rst
@@ -72,8 +72,7 @@ data structures with additional attributs and methods:
 
    .. method:: __eq__(val: StructuredValue) -> bool
 
-      Return ``True`` if the receiver is equal to *val*. The equality
-      test is based on their hash values.
+      Return ``True`` if the receiver has the same contents as *val*.
 
    .. automethod:: __hash__
 
diff --git a/yangson/instvalue.py b/yangson/instvalue.py
index c706834..2889e76 100644
--- a/yangson/instvalue.py
+++ b/yangson/instvalue.py
@@ -24,6 +24,7 @@ This module implements the following classes:
 * ObjectValue: Cooked object value of an instance node.
 """
 from datetime import datetime
+from decimal import Decimal
 from typing import Union
 from .typealiases import InstanceName, PrefName, ScalarValue
 
@@ -41,6 +42,31 @@ MetadataObject = dict[PrefName, ScalarValue]
 """Metadata object [RFC 7952]_."""
 
 
+def _value_hash(value: Value) -> int:
+    """Return hash that tells apart values such as -1 and -2, or 1 and True."""
+    if isinstance(value, dict):
+        return hash((type(value), frozenset(
+            [(k, _value_hash(v)) for k, v in value.items()])))
+    if isinstance(value, list):
+        return hash((type(value), tuple([_value_hash(v) for v in value])))
+    if isinstance(value, Decimal):
+        return hash((Decimal, value))
+    return hash((type(value), repr(value)))
+
+
+def _same_value(val1: Value, val2: Value) -> bool:
+    """Return ``True`` if both values have the same types and contents."""
+    if type(val1) is not type(val2):
+        return False
+    if isinstance(val1, dict):
+        return (val1.keys() == val2.keys() and
+                all([_same_value(val1[k], val2[k]) for k in val1]))
+    if isinstance(val1, list):
+        return (len(val1) == len(val2) and
+                all([_same_value(*vs) for vs in zip(val1, val2)]))
+    return val1 == val2
+
+
 class StructuredValue:
     """Abstract class for array and object values."""
 
@@ -66,11 +92,15 @@ class StructuredValue:
         Args:
         :param val: value to compare
         """
-        return self.__class__ == val.__class__ and hash(self) == hash(val)
+        return _same_value(self, val)
+
+    def __ne__(self, val: "StructuredValue") -> bool:
+        """Return ``True`` if the receiver is different from `val`."""
+        return not self == val
 
     def __hash__(self) -> int:
         """Return hash value for the receiver."""
-        raise NotImplementedError()
+        return _value_hash(self)
 
 
 class ArrayValue(StructuredValue, list):
@@ -83,7 +113,7 @@ class ArrayValue(StructuredValue, list):
 
     def __hash__(self) -> int:
         """Return hash value for the receiver."""
-        return tuple([x.__hash__() for x in self]).__hash__()
+        return _value_hash(self)
 
 
 class ObjectValue(StructuredValue, dict):
@@ -96,5 +126,4 @@ class ObjectValue(StructuredValue, dict):
 
     def __hash__(self) -> int:
         """Return hash value for the receiver."""
-        sks = sorted(self.keys())
-        return tuple([(k, self[k].__hash__()) for k in sks]).__hash__()
+        return _value_hash(self)
-- 
2.43.0


From 40d54854fcba988040cc2a9641913067b666e0da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:22:19 +0000
Subject: [PATCH 031/124] fix: annotations of list and leaf-list entries,
 qualified targets and raw annotation values

---
 yangson/instance.py   | 12 +++++++-----
 yangson/schemanode.py | 38 ++++++++++++++++++++++++++++++++------
 2 files changed, 39 insertions(+), 11 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index f940168..ed004b3 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -501,17 +501,18 @@ class InstanceNode:
                         value[m] = member_value
 
                         if m_attr:
+                            md = self.schema_node._raw_metadata(m_attr)
                             if isinstance(value[m], dict):
-                                value[m]['@'] = attr[m]
+                                value[m]['@'] = md
                             else:
-                                value['@'+m] = attr[m]
+                                value['@'+m] = md
 
             return value
         if isinstance(self.value, ArrayValue):
             value = list()
             for en in self:
-                if isinstance(en, dict) and '@' in en.value:
-                    e_attr = en['@']
+                if isinstance(en.value, ObjectValue) and '@' in en.value:
+                    e_attr = en.value['@']
                 else:
                     e_attr = {}
                 add1 = filter.begin_element(self, en, e_attr)
@@ -521,7 +522,8 @@ class InstanceNode:
                 if (add1 and add2 and member_value is not None
                         and (member_value != {} or not en.value)):
                     if e_attr:
-                        member_value['@'] = e_attr
+                        member_value['@'] = (
+                            self.schema_node._raw_metadata(e_attr))
                     value.append(member_value)
             return value
         return self.schema_node.type.to_raw(self.value)
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 9c94617..cc8a526 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -547,12 +547,24 @@ class InternalNode(SchemaNode):
         res = ObjectValue()
         for qn in rval:
             if qn.startswith("@"):
-                if qn != "@":
-                    tgt = qn[1:]
-                    if tgt not in rval:
-                        raise MissingAnnotationTarget(jptr, tgt)
-                    jptr += '/' + tgt
-                res[qn] = self._process_metadata(rval[qn], jptr)
+                if qn == "@":
+                    res[qn] = self._process_metadata(rval[qn], jptr)
+                    continue
+                tgt = qn[1:]
+                if tgt not in rval:
+                    raise MissingAnnotationTarget(jptr, tgt)
+                ch = self.get_data_child(*self._iname2qname(tgt))
+                if ch is None:
+                    raise RawMemberError(jptr + "/" + tgt)
+                iname = ("{1}:{0}".format(*ch.qual_name)
+                         if jptr == "" or self.ns != ch.ns else ch.name)
+                npath = jptr + "/" + tgt
+                if isinstance(ch, LeafListNode) and isinstance(rval[qn], list):
+                    res["@" + iname] = ArrayValue(
+                        [None if mo is None else
+                         self._process_metadata(mo, npath) for mo in rval[qn]])
+                else:
+                    res["@" + iname] = self._process_metadata(rval[qn], npath)
             else:
                 cn = self._iname2qname(qn)
                 ch = self.get_data_child(*cn)
@@ -617,6 +629,8 @@ class InternalNode(SchemaNode):
 
     def _process_metadata(self, rmo: RawMetadataObject,
                           jptr: JSONPointer) -> MetadataObject:
+        if not isinstance(rmo, dict):
+            raise RawTypeError(jptr, "metadata object")
         res = {}
         ans = self.schema_root().annotations
         for mem in rmo:
@@ -629,6 +643,18 @@ class InternalNode(SchemaNode):
                 raise AnnotationTypeError(jptr, mem, an.type.error_message)
         return res
 
+    def _raw_metadata(self, md: MetadataObject) -> RawMetadataObject:
+        """Return the raw form of a metadata object."""
+        if isinstance(md, list):
+            return [None if mo is None else self._raw_metadata(mo)
+                    for mo in md]
+        ans = self.schema_root().annotations
+        res = {}
+        for mem in md:
+            an = ans.get(self._iname2qname(mem))
+            res[mem] = an.type.to_raw(md[mem]) if an else md[mem]
+        return res
+
     def _node_digest(self) -> dict[str, Any]:
         res = super()._node_digest()
         rc = res["children"] = {}
-- 
2.43.0


From b79c0286dc90e6b4ae88928e43b65301a8ca3d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:02 +0000
Subject: [PATCH 032/124] fix: selecting an entry of an object raises the
 documented exception

---
 yangson/instance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index ed004b3..5531765 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -631,6 +631,8 @@ class InstanceNode:
         return pts[2] if pts[1] and pts[0] == self.namespace else name
 
     def _member(self, name: InstanceName) -> "ObjectMember":
+        if not isinstance(name, str):
+            raise NonexistentInstance(self, f"member '{name}'")
         name = self._member_key(name)
         sibs = self.value.copy()
         try:
-- 
2.43.0


From a37e86c12670bb38503948531f4e844e127fbd36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:25 +0000
Subject: [PATCH 033/124] fix: look up of list entries does not take true for 1
 or false for 0

---
 yangson/instance.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 5531765..647fc73 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -58,6 +58,12 @@ __all__ = ["InstanceNode", "RootNode", "ObjectMember", "ArrayEntry",
            "InstanceValueError", "NonexistentInstance"]
 
 
+def _equal_scalars(val1: ScalarValue, val2: ScalarValue) -> bool:
+    """Compare scalar values, but don't take true for 1 or false for 0."""
+    return (val1 == val2 and
+            isinstance(val1, bool) == isinstance(val2, bool))
+
+
 class OutputFilter:
     def begin_member(self, parent: "InstanceNode", node: "InstanceNode",
                      attributes: Mapping) -> bool:
@@ -262,7 +268,7 @@ class InstanceNode:
             flag = True
             for k in keys:
                 try:
-                    if en[k] != keys[k]:
+                    if not _equal_scalars(en[k], keys[k]):
                         flag = False
                         break
                 except KeyError:
@@ -1240,7 +1246,7 @@ class EntryKeys:
             flag = True
             try:
                 for k in keys:
-                    if en[k] != keys[k]:
+                    if not _equal_scalars(en[k], keys[k]):
                         flag = False
                         break
             except KeyError:
-- 
2.43.0


From bb8c37b884ae5fd5e145f02a57b63a670c2e1fd6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:30:03 +0000
Subject: [PATCH 034/124] fix: updating a node with an older cooked value is a
 modification

---
 yangson/instance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 647fc73..9081785 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -306,7 +306,7 @@ class InstanceNode:
         Returns:
             Copy of the receiver with the updated value.
         """
-        return self._copy(self._cook_value(value, raw))
+        return self._copy(self._cook_value(value, raw), datetime.now())
 
     def merge(self, value: Union[RawValue, Value],
               raw: bool = False) -> "InstanceNode":
@@ -906,7 +906,7 @@ class ArrayEntry(InstanceNode):
 
         This method overrides the superclass method.
         """
-        return super().update(self._cook_value(value, raw), False)
+        return super().update(value, raw)
 
     def previous(self) -> "ArrayEntry":
         """Return an instance node corresponding to the previous entry.
-- 
2.43.0


From b432e387bd60d3c08ad0f66f8c2798ce9efaabfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:33:49 +0000
Subject: [PATCH 035/124] fix: nodes inside an operation or notification are
 not data children of the node that contains it

---
 yangson/schemanode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index cc8a526..fddbe54 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -510,8 +510,9 @@ class InternalNode(SchemaNode):
             if child.name == name and child.ns == ns:
                 if isinstance(child, DataNode):
                     return child
-                todo.insert(0, child)
-            elif not isinstance(child, DataNode):
+                if not isinstance(child, SchemaTreeNode):
+                    todo.insert(0, child)
+            elif not isinstance(child, (DataNode, SchemaTreeNode)):
                 todo.append(child)
         for c in todo:
             res = c.get_data_child(name, ns)
-- 
2.43.0


From 6f3a7167b71d4ce269f08f636047fcf980822fc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:04 +0000
Subject: [PATCH 036/124] fix: XPath parent of the root node is an empty
 node-set

---
 yangson/instance.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index 9081785..baccf27 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -781,6 +781,10 @@ class RootNode(InstanceNode):
     def _cook_value(self, value: Union[RawValue, Value], raw: bool) -> Value:
         return self.schema_node.from_raw(value) if raw else value
 
+    def _parent(self) -> list[InstanceNode]:
+        """XPath - return an empty list because there is no parent."""
+        return []
+
     def _copy(self, newval: Value, newts: datetime = None) -> InstanceNode:
         return RootNode(newval, self.schema_node, self.schema_data,
                         newts if newts else newval.timestamp)
-- 
2.43.0


From 4653f8e034b883307822aa858e8b0845e7a9c5cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:08 +0000
Subject: [PATCH 037/124] fix: equality and hash of instance route selectors of
 different kinds

---
 yangson/instance.py  | 21 +++++++++++++++++----
 yangson/instroute.py |  2 +-
 2 files changed, 18 insertions(+), 5 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index baccf27..8cd19a8 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1081,7 +1081,11 @@ class MemberName:
         self.namespace = ns
 
     def __eq__(self, other: object) -> bool:
-        return self.name == other.name and self.namespace == other.namespace
+        return (type(self) is type(other) and self.name == other.name and
+                self.namespace == other.namespace)
+
+    def __hash__(self) -> int:
+        return hash((self.name, self.namespace))
 
     def __str__(self) -> str:
         return "/" + self.iname()
@@ -1134,7 +1138,10 @@ class EntryIndex:
         self.index = index
 
     def __eq__(self, other: object) -> bool:
-        return self.index == other.index
+        return isinstance(other, EntryIndex) and self.index == other.index
+
+    def __hash__(self) -> int:
+        return hash(self.index)
 
     def __str__(self) -> str:
         return f"[{self.index + 1}]"
@@ -1168,7 +1175,10 @@ class EntryValue:
         return f"[.={json.dumps(self.value)}]"
 
     def __eq__(self, other: object) -> bool:
-        return self.value == other.value
+        return isinstance(other, EntryValue) and self.value == other.value
+
+    def __hash__(self) -> int:
+        return hash(self.value)
 
     def parse_value(self, sn: "DataNode") -> ScalarValue:
         """Let schema node's type parse the receiver's value."""
@@ -1218,7 +1228,10 @@ class EntryKeys:
         return "".join(res)
 
     def __eq__(self, other: object) -> bool:
-        return self.keys == other.keys
+        return isinstance(other, EntryKeys) and self.keys == other.keys
+
+    def __hash__(self) -> int:
+        return hash(frozenset(self.keys.items()))
 
     def parse_keys(self, sn: "DataNode") -> dict[InstanceName, ScalarValue]:
         """Parse key dictionary in the context of a schema node.
diff --git a/yangson/instroute.py b/yangson/instroute.py
index 3545de2..02071fb 100644
--- a/yangson/instroute.py
+++ b/yangson/instroute.py
@@ -70,4 +70,4 @@ class InstanceRoute(tuple[InstanceRouteItem, ...]):
 
     def __hash__(self) -> int:
         """Return the hash value of the receiver."""
-        return self.__str__().__hash__()
+        return super().__hash__()
-- 
2.43.0


From 86c09b7f2f3aec1d3d3ca9db5a20eb3bec127d4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:26 +0000
Subject: [PATCH 038/124] fix: quote strings in instance identifiers as the
 parser reads them

---
 yangson/instance.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 8cd19a8..37ef097 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -58,6 +58,12 @@ __all__ = ["InstanceNode", "RootNode", "ObjectMember", "ArrayEntry",
            "InstanceValueError", "NonexistentInstance"]
 
 
+def _quoted(value: str) -> str:
+    """Return `value` in quotes, for use in an instance identifier."""
+    quote = "'" if '"' in value else '"'
+    return quote + value + quote
+
+
 def _equal_scalars(val1: ScalarValue, val2: ScalarValue) -> bool:
     """Compare scalar values, but don't take true for 1 or false for 0."""
     return (val1 == val2 and
@@ -1172,7 +1178,7 @@ class EntryValue:
         self.value = value
 
     def __str__(self) -> str:
-        return f"[.={json.dumps(self.value)}]"
+        return f"[.={_quoted(self.value)}]"
 
     def __eq__(self, other: object) -> bool:
         return isinstance(other, EntryValue) and self.value == other.value
@@ -1224,7 +1230,7 @@ class EntryKeys:
         res = []
         for k in self.keys:
             kn = f"{k[1]}:{k[0]}" if k[1] else k[0]
-            res.append(f"[{kn}={json.dumps(self.keys[k])}]")
+            res.append(f"[{kn}={_quoted(self.keys[k])}]")
         return "".join(res)
 
     def __eq__(self, other: object) -> bool:
-- 
2.43.0


From 1fd0c70f44a5139e79d27c1855cc96c67458eb32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:35:43 +0000
Subject: [PATCH 039/124] fix: instance routes of list and leaf-list entries
 lead back to the entry

---
 yangson/instance.py | 105 ++++++++++++++++++++++++++++----------------
 1 file changed, 66 insertions(+), 39 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 37ef097..a53678e 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -34,7 +34,6 @@ This module implements the following classes:
 """
 from collections import deque
 from datetime import datetime
-import json
 from typing import Mapping, Optional, TYPE_CHECKING, Union
 from urllib.parse import unquote
 import xml.etree.ElementTree as ET
@@ -43,10 +42,10 @@ from .exceptions import (BadSchemaNodeType, EndOfInput, InstanceException,
                          InstanceValueError, InvalidKeyValue,
                          MissingModuleNamespace, NonexistentInstance,
                          NonDataNode, NonexistentSchemaNode, UnexpectedInput,
-                         YangTypeError)
+                         YangsonException, YangTypeError)
 from .instroute import InstanceRoute
 from .instvalue import (ArrayValue, InstanceKey, ObjectValue, Value,
-                        ScalarValue, StructuredValue)
+                        ScalarValue, StructuredValue, _same_value)
 from .parser import Parser
 from .typealiases import (InstanceName, JSONPointer, QualName, RawScalar,
                           RawValue, SchemaRoute, YangIdentifier)
@@ -1010,20 +1009,31 @@ class ArrayEntry(InstanceNode):
 
     def _instance_route_entry(self):
         sn = self.schema_node
-        if isinstance(sn, LeafListNode):
-            return EntryValue(str(self.value))
-        if not sn.keys:
-            return EntryIndex(self._key)
-        kdict = {}
-        for k in sn.keys:
-            try:
-                if k[1] == sn.ns:
-                    kdict[(k[0], None)] = str(self[k[0]])
-                else:
-                    kdict[k] = str(self[f"{k[1]}:{k[0]}"])
-            except (NonexistentInstance, YangTypeError):
+        """Return a selector that leads to the receiver."""
+        sn = self.schema_node
+        try:
+            if isinstance(sn, LeafListNode):
+                sel = EntryValue(str(self))
+                texts = [sel.value]
+            elif sn.keys:
+                kdict = {}
+                for k in sn.keys:
+                    if k[1] == sn.ns:
+                        kdict[(k[0], None)] = str(self[k[0]])
+                    else:
+                        kdict[k] = str(self[f"{k[1]}:{k[0]}"])
+                sel = EntryKeys(kdict)
+                texts = list(kdict.values())
+            else:
                 return EntryIndex(self._key)
-        return EntryKeys(kdict)
+            if not any("'" in t and '"' in t for t in texts):
+                others = sel.peek_step(ArrayValue(self.before), sn)[0]
+                this = sel.peek_step(ArrayValue([self.value]), sn)[0]
+                if others is None and this is not None:
+                    return sel
+        except YangsonException:
+            pass
+        return EntryIndex(self._key)
 
     def _ancestors_or_self(
             self: "ArrayEntry",
@@ -1102,10 +1112,12 @@ class MemberName:
 
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Optional[Value], "DataNode"]:
+        if not isinstance(sn, InternalNode):
+            return (None, sn)
         cn = sn.get_data_child(self.name, self.namespace)
         try:
             return (val[cn.iname()], cn)
-        except (IndexError, KeyError, TypeError):
+        except (AttributeError, IndexError, KeyError, TypeError):
             return (None, cn)
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
@@ -1193,20 +1205,26 @@ class EntryValue:
             raise InvalidKeyValue(self.value)
         return res
 
-    def peek_step(self, val: ObjectValue,
-                  sn: "DataNode") -> tuple[Value, "DataNode"]:
-        try:
-            return (val[val.index(self.parse_value(sn))], sn)
-        except ValueError:
-            return None, sn
+    def peek_step(self, val: ArrayValue,
+                  sn: "DataNode") -> tuple[Optional[Value], "DataNode"]:
+        if not (isinstance(sn, LeafListNode) and isinstance(val, ArrayValue)):
+            return (None, sn)
+        value = self.parse_value(sn)
+        for en in val:
+            if _same_value(en, value):
+                return (en, sn)
+        return (None, sn)
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
-        try:
-            return inst._entry(
-                inst.value.index(self.parse_value(inst.schema_node)))
-        except ValueError:
-            raise NonexistentInstance(
-                inst, f"entry '{self.value!s}'") from None
+        sn = inst.schema_node
+        if not (isinstance(sn, LeafListNode) and
+                isinstance(inst.value, ArrayValue)):
+            raise InstanceValueError(inst, "entry value of non-leaf-list")
+        value = self.parse_value(sn)
+        for i, en in enumerate(inst.value):
+            if _same_value(en, value):
+                return inst._entry(i)
+        raise NonexistentInstance(inst, f"entry '{self.value!s}'")
 
 
 class EntryKeys:
@@ -1264,17 +1282,11 @@ class EntryKeys:
             val: Current value (array).
             sn:  Current schema node.
         """
+        if not (isinstance(sn, ListNode) and isinstance(val, ArrayValue)):
+            return (None, sn)
         keys = self.parse_keys(sn)
         for en in val:
-            flag = True
-            try:
-                for k in keys:
-                    if not _equal_scalars(en[k], keys[k]):
-                        flag = False
-                        break
-            except KeyError:
-                continue
-            if flag:
+            if self._matches(en, keys):
                 return (en, sn)
         return (None, sn)
 
@@ -1284,7 +1296,22 @@ class EntryKeys:
         Args:
             inst: Current instance.
         """
-        return inst.look_up(**self.parse_keys(inst.schema_node))
+        sn = inst.schema_node
+        if not (isinstance(sn, ListNode) and
+                isinstance(inst.value, ArrayValue)):
+            raise InstanceValueError(inst, "lookup on non-list")
+        keys = self.parse_keys(sn)
+        for i, en in enumerate(inst.value):
+            if self._matches(en, keys):
+                return inst._entry(i)
+        raise NonexistentInstance(inst, "entry lookup failed")
+
+    @staticmethod
+    def _matches(entry: ObjectValue,
+                 keys: dict[InstanceName, ScalarValue]) -> bool:
+        """Return ``True`` if `entry` has the (parsed) `keys`."""
+        return all(k in entry and _same_value(entry[k], keys[k])
+                   for k in keys)
 
 
 class ResourceIdParser(Parser):
-- 
2.43.0


From b57ae59b176c60de05e7569bc41779f9697482eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:00 +0000
Subject: [PATCH 040/124] fix: resource identifier with a step below a leaf
 raises the documented exception

---
 yangson/instance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index a53678e..5d40ade 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1338,6 +1338,8 @@ class ResourceIdParser(Parser):
         sn = self.schema_node
         while True:
             name, ns = self.prefixed_name()
+            if not isinstance(sn, InternalNode):
+                raise NonexistentSchemaNode(sn.qual_name, name, ns)
             cn = sn.get_data_child(name, ns)
             if cn is None:
                 for cn in sn.children:
-- 
2.43.0


From 2a4cbfe20823a6d9da31a41055dccd476629a2a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:43:19 +0000
Subject: [PATCH 041/124] fix: leafref paths inside a notification start from
 the notification node

---
 yangson/schemanode.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index fddbe54..1deb192 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -302,9 +302,11 @@ class SchemaNode:
             return lft._follow_leafref(xpath.right, init)
         elif isinstance(xpath, Step):
             if xpath.axis == Axis.parent:
-                if isinstance(self, SchemaTreeNode):
-                    return None
-                return self.data_parent() or self.schema_root()
+                sn = self.parent
+                while (sn and sn.parent and
+                       not isinstance(sn, (DataNode, NotificationNode))):
+                    sn = sn.parent
+                return sn
             elif xpath.axis == Axis.child:
                 if isinstance(self, InternalNode) and xpath.qname:
                     qname = (xpath.qname if xpath.qname[1]
-- 
2.43.0


From 002767466b1037f0caed37640bb7c3487bd961ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:07 +0000
Subject: [PATCH 042/124] fix: annotation target may be qualified differently
 than the annotated member

---
 yangson/schemanode.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 1deb192..8c2bcc3 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -554,9 +554,12 @@ class InternalNode(SchemaNode):
                     res[qn] = self._process_metadata(rval[qn], jptr)
                     continue
                 tgt = qn[1:]
-                if tgt not in rval:
+                tqn = self._iname2qname(tgt)
+                if tgt not in rval and all(
+                        m.startswith("@") or self._iname2qname(m) != tqn
+                        for m in rval):
                     raise MissingAnnotationTarget(jptr, tgt)
-                ch = self.get_data_child(*self._iname2qname(tgt))
+                ch = self.get_data_child(*tqn)
                 if ch is None:
                     raise RawMemberError(jptr + "/" + tgt)
                 iname = ("{1}:{0}".format(*ch.qual_name)
-- 
2.43.0


From 758b9dd5bc11568fcf243e98f8bff2436d0f8418 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:21 +0000
Subject: [PATCH 043/124] fix: raw value of an annotated container or list
 entry contains its annotations

---
 yangson/instance.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 5d40ade..50efec4 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -502,7 +502,7 @@ class InstanceNode:
             attr = self._get_attributes()
             for m in self.value:
                 if m[0] != '@':
-                    m_attr = attr.get(m, {})
+                    m_attr = attr.get(m, {}).copy()
                     member = self[m]
                     add1 = filter.begin_member(self, member, m_attr)
                     if add1:
@@ -510,6 +510,9 @@ class InstanceNode:
                     add2 = filter.end_member(self, member, m_attr)
                     if add1 and add2:
                         value[m] = member_value
+                        if (isinstance(member.value, ObjectValue) and
+                                member.is_internal()):
+                            member_value.pop('@', None)
 
                         if m_attr:
                             md = self.schema_node._raw_metadata(m_attr)
@@ -518,17 +521,21 @@ class InstanceNode:
                             else:
                                 value['@'+m] = md
 
+            if self.value.get('@'):
+                value['@'] = self.schema_node._raw_metadata(self.value['@'])
             return value
         if isinstance(self.value, ArrayValue):
             value = list()
             for en in self:
                 if isinstance(en.value, ObjectValue) and '@' in en.value:
-                    e_attr = en.value['@']
+                    e_attr = en.value['@'].copy()
                 else:
                     e_attr = {}
                 add1 = filter.begin_element(self, en, e_attr)
                 if add1:
                     member_value = en.raw_value(filter)
+                    if isinstance(en.value, ObjectValue):
+                        member_value.pop('@', None)
                 add2 = filter.end_element(self, en, e_attr)
                 if (add1 and add2 and member_value is not None
                         and (member_value != {} or not en.value)):
-- 
2.43.0


From fad18fef66a6e6d9dedeb269602c77d08936be47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:10:26 +0000
Subject: [PATCH 044/124] fix: annotated list entry without other members is
 exported

---
 yangson/instance.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 50efec4..8bd84a3 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -538,7 +538,7 @@ class InstanceNode:
                         member_value.pop('@', None)
                 add2 = filter.end_element(self, en, e_attr)
                 if (add1 and add2 and member_value is not None
-                        and (member_value != {} or not en.value)):
+                        and (member_value != {} or e_attr or not en.value)):
                     if e_attr:
                         member_value['@'] = (
                             self.schema_node._raw_metadata(e_attr))
@@ -1015,7 +1015,6 @@ class ArrayEntry(InstanceNode):
                           self.parinst, self.schema_node, ts)
 
     def _instance_route_entry(self):
-        sn = self.schema_node
         """Return a selector that leads to the receiver."""
         sn = self.schema_node
         try:
-- 
2.43.0


From 53e16448302a6166a0628bebda1f6e230b0201b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:49:22 +0000
Subject: [PATCH 045/124] fix: \w and \s outside character classes have the XML
 Schema meaning

---
 yangson/constraint.py | 25 ++++++++++++++++++++++++-
 1 file changed, 24 insertions(+), 1 deletion(-)

diff --git a/yangson/constraint.py b/yangson/constraint.py
index 639f967..80b0898 100644
--- a/yangson/constraint.py
+++ b/yangson/constraint.py
@@ -127,6 +127,29 @@ class Intervals(Constraint, Generic[N]):
 class Pattern(Constraint):
     """Class representing regular expression pattern."""
 
+    _token = re.compile(r"\\.|\[|\]", re.DOTALL)
+
+    @classmethod
+    def _expand_escapes(cls, pattern: str) -> str:
+        r"""Enclose \s, \S, \w and \W in a character class expression.
+
+        Otherwise `translate_pattern` leaves them as they are, and their
+        meaning in Python differs from XML Schema.
+        """
+        depth = 0
+
+        def repl(mo: re.Match) -> str:
+            nonlocal depth
+            tok = mo.group()
+            if tok == "[":
+                depth += 1
+            elif tok == "]":
+                depth -= 1
+            elif depth == 0 and tok[1] in "sSwW":
+                return f"[{tok}]"
+            return tok
+        return cls._token.sub(repl, pattern)
+
     def __init__(self, pattern: str, invert_match: bool = False,
                  error_tag: Optional[str] = None,
                  error_message: Optional[str] = None) -> None:
@@ -138,7 +161,7 @@ class Pattern(Constraint):
         self.invert_match = invert_match
         try:
             self.regex = re.compile(translate_pattern(
-                pattern, back_references=False,
+                self._expand_escapes(pattern), back_references=False,
                 lazy_quantifiers=False, anchors=False))
         except RegexError:
             raise InvalidArgument(pattern) from None
-- 
2.43.0


From 717d66a41fd6a36c557876396eb2b7e03da035d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:42 +0000
Subject: [PATCH 046/124] fix: binary values with excess padding are rejected

---
 yangson/datatype.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 2aebf89..a7cd0e0 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -514,6 +514,8 @@ class BinaryType(LinearType[bytes]):
     def from_raw(self, raw: str) -> Optional[bytes]:
         """Override superclass method."""
         try:
+            if len(raw) % 4:    # missing or excess padding
+                return None
             return base64.b64decode(raw, validate=True)
         except (TypeError, ValueError):
             return None
-- 
2.43.0


From 5a599e78eb5b746a5c972866cccbb6590d1cb435 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:59 +0000
Subject: [PATCH 047/124] fix: integer text with too many digits is rejected
 rather than raising ValueError

---
 yangson/datatype.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index a7cd0e0..8e6f81c 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -953,7 +953,10 @@ class IntegralType(NumericType[int, RN]):
     def parse_value(self, text: str) -> Optional[int]:
         """Override superclass method."""
         if isinstance(text, str) and self.lexical.fullmatch(text):
-            return int(text)
+            try:
+                return int(text)
+            except ValueError:  # too many digits
+                return None
         return None
 
     def from_raw(self, raw: RN) -> Optional[int]:
-- 
2.43.0


From 66b71efa495c4040bff3e64268f2ae77e46149b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:55:12 +0000
Subject: [PATCH 048/124] fix: instance-identifier value with unqualified
 top-level name is rejected

---
 yangson/datatype.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 8e6f81c..db97be6 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -702,9 +702,11 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         if not isinstance(raw, str):
             return None
         try:
-            return InstanceIdParser(raw).parse()
+            res = InstanceIdParser(raw).parse()
         except ParserException:
             return None
+        # the first node name must be namespace-qualified
+        return None if res and res[0].namespace is None else res
 
     def parse_value(self, text: str) -> Optional[InstanceRoute]:
         return self.from_raw(text)
-- 
2.43.0


From aed98f4a89b878f296bc908184f758141fd3466e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:18:52 +0000
Subject: [PATCH 049/124] fix: integer defaults are read by the YANG rules only

---
 yangson/datatype.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index db97be6..5c80b02 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -937,7 +937,7 @@ class Decimal64Type(NumericType[decimal.Decimal, str]):
 class IntegralType(NumericType[int, RN]):
     """Abstract class for integral data types."""
 
-    octhex = re.compile("[-+]?0([x0-9])")
+    octhex = re.compile("[-+]?0(?:x[0-9a-fA-F]+|[0-7]+)")
     """Regular expression for octal or hexadecimal default."""
 
     lexical = re.compile("[-+]?[0-9]+")
@@ -975,15 +975,11 @@ class IntegralType(NumericType[int, RN]):
     def from_yang(self, text: str,
                   sctx: Optional[SchemaContext] = None) -> int:
         """Override the superclass method."""
-        mo = self.octhex.match(text)
-        if mo:
-            base = 16 if mo.group(1) == "x" else 8
-        else:
-            base = 10
-        try:
-            return int(text, base)
-        except (ValueError, TypeError):
+        if self.octhex.fullmatch(text):
+            return int(text, 16 if "x" in text else 8)
+        if text.lstrip("-+").startswith("0") and text.lstrip("-+") != "0":
             raise InvalidArgument(text)
+        return super().from_yang(text, sctx)
 
 
 class Int8Type(IntegralType[int]):
-- 
2.43.0


From 2a7aec50d56ed7acbcdc50ca773b341a62a2fae7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 050/124] fix: XPath parser: read operator names as whole
 tokens, reject trailing input

---
 yangson/xpathparser.py | 55 ++++++++++++++++++++++++++----------------
 1 file changed, 34 insertions(+), 21 deletions(-)

diff --git a/yangson/xpathparser.py b/yangson/xpathparser.py
index 3df7793..7e4f0f2 100644
--- a/yangson/xpathparser.py
+++ b/yangson/xpathparser.py
@@ -64,12 +64,24 @@ class XPathParser(Parser):
             NotSupported: If the input XPath expression contains a feature
                 that isn't supported by the implementation.
         """
+        res = self._expr()
+        if not self.at_end():
+            raise InvalidXPath(self)
+        return res
+
+    def _expr(self) -> Expr:
         self.skip_ws()
         return self._or_expr()
 
+    def _operator_name(self, name: str) -> bool:
+        """Test and skip an operator name, which has to be a whole token."""
+        mo = self.ident_re.match(self.input, self.offset)
+        return (mo is not None and mo.group() == name and
+                self.test_string(name))
+
     def _or_expr(self) -> Expr:
         op1 = self._and_expr()
-        while self.test_string("or"):
+        while self._operator_name("or"):
             self.skip_ws()
             op2 = self._and_expr()
             op1 = OrExpr(op1, op2)
@@ -77,7 +89,7 @@ class XPathParser(Parser):
 
     def _and_expr(self) -> Expr:
         op1 = self._equality_expr()
-        while self.test_string("and"):
+        while self._operator_name("and"):
             self.skip_ws()
             op2 = self._equality_expr()
             op1 = AndExpr(op1, op2)
@@ -139,9 +151,9 @@ class XPathParser(Parser):
         while True:
             if self.test_string("*"):
                 mulop = MultiplicativeOp.multiply
-            elif self.test_string("div"):
+            elif self._operator_name("div"):
                 mulop = MultiplicativeOp.divide
-            elif self.test_string("mod"):
+            elif self._operator_name("mod"):
                 mulop = MultiplicativeOp.modulo
             else:
                 return op1
@@ -206,11 +218,12 @@ class XPathParser(Parser):
         else:
             mname = "_func_" + fname.replace("-", "_")
             try:
-                prim = getattr(self, mname)()
+                func = getattr(self, "" if "_" in fname else mname)
             except AttributeError:
                 if fname in ("id", "lang", "namespace-uri"):
                     raise NotSupported(self, f"function '{fname}()'") from None
                 raise InvalidXPath(self) from None
+            prim = func()
         self.char(")")
         self.skip_ws()
         return FilterExpr(prim, self._predicates())
@@ -322,28 +335,28 @@ class XPathParser(Parser):
         return res
 
     def _opt_arg(self) -> Optional[Expr]:
-        return None if self.peek() == ")" else self.parse()
+        return None if self.peek() == ")" else self._expr()
 
     def _two_args(self) -> tuple[Expr, Expr]:
-        fst = self.parse()
+        fst = self._expr()
         self.char(",")
         self.skip_ws()
-        return fst, self.parse()
+        return fst, self._expr()
 
     def _func_bit_is_set(self) -> FuncBitIsSet:
         return FuncBitIsSet(*self._two_args())
 
     def _func_boolean(self) -> FuncBoolean:
-        return FuncBoolean(self.parse())
+        return FuncBoolean(self._expr())
 
     def _func_ceiling(self) -> FuncCeiling:
-        return FuncCeiling(self.parse())
+        return FuncCeiling(self._expr())
 
     def _func_concat(self) -> FuncConcat:
-        res = [self.parse()]
+        res = [self._expr()]
         while self.test_string(","):
             self.skip_ws()
-            res.append(self.parse())
+            res.append(self._expr())
         if len(res) < 2:
             raise InvalidXPath(self)
         return FuncConcat(res)
@@ -352,13 +365,13 @@ class XPathParser(Parser):
         return FuncContains(*self._two_args())
 
     def _func_count(self) -> FuncCount:
-        return FuncCount(self.parse())
+        return FuncCount(self._expr())
 
     def _func_current(self) -> FuncCurrent:
         return FuncCurrent()
 
     def _func_deref(self) -> FuncDeref:
-        return FuncDeref(self.parse())
+        return FuncDeref(self._expr())
 
     def _func_derived_from(self) -> FuncDerivedFrom:
         return FuncDerivedFrom(*self._two_args(), False, self.sctx)
@@ -367,13 +380,13 @@ class XPathParser(Parser):
         return FuncDerivedFrom(*self._two_args(), True, self.sctx)
 
     def _func_enum_value(self) -> FuncEnumValue:
-        return FuncEnumValue(self.parse())
+        return FuncEnumValue(self._expr())
 
     def _func_false(self) -> FuncFalse:
         return FuncFalse()
 
     def _func_floor(self) -> FuncFloor:
-        return FuncFloor(self.parse())
+        return FuncFloor(self._expr())
 
     def _func_last(self) -> FuncLast:
         return FuncLast()
@@ -388,7 +401,7 @@ class XPathParser(Parser):
         return FuncNormalizeSpace(self._opt_arg())
 
     def _func_not(self) -> FuncNot:
-        return FuncNot(self.parse())
+        return FuncNot(self._expr())
 
     def _func_number(self) -> FuncNumber:
         return FuncNumber(self._opt_arg())
@@ -400,7 +413,7 @@ class XPathParser(Parser):
         return FuncReMatch(*self._two_args())
 
     def _func_round(self) -> FuncRound:
-        return FuncRound(self.parse())
+        return FuncRound(self._expr())
 
     def _func_starts_with(self) -> FuncStartsWith:
         return FuncStartsWith(*self._two_args())
@@ -415,7 +428,7 @@ class XPathParser(Parser):
         string, start = self._two_args()
         if self.test_string(","):
             self.skip_ws()
-            length = self.parse()
+            length = self._expr()
         else:
             length = None
         return FuncSubstring(string, start, length)
@@ -427,13 +440,13 @@ class XPathParser(Parser):
         return FuncSubstringBefore(*self._two_args())
 
     def _func_sum(self) -> FuncSum:
-        return FuncSum(self.parse())
+        return FuncSum(self._expr())
 
     def _func_translate(self) -> FuncTranslate:
         s1, s2 = self._two_args()
         self.char(",")
         self.skip_ws()
-        return FuncTranslate(s1, s2, self.parse())
+        return FuncTranslate(s1, s2, self._expr())
 
     def _func_true(self) -> FuncTrue:
         return FuncTrue()
-- 
2.43.0


From 5dcd65476bad966d5f7f92e8b3e4936f05aed236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:26 +0000
Subject: [PATCH 051/124] fix: XPath parser: steps after '//' and a lone '/'
 are read as XPath 1.0 prescribes

---
 yangson/parser.py      |  2 +-
 yangson/xpathparser.py | 41 ++++++++++++++++++++++++++++++-----------
 2 files changed, 31 insertions(+), 12 deletions(-)

diff --git a/yangson/parser.py b/yangson/parser.py
index df76597..0ed610b 100644
--- a/yangson/parser.py
+++ b/yangson/parser.py
@@ -47,7 +47,7 @@ class Parser:
     uint_re = re.compile(_uint)
     """Regular expression for unsigned integer."""
 
-    ufloat_re = re.compile(fr"{_uint}(\.{_uint})?|\.{_uint}")
+    ufloat_re = re.compile(fr"{_uint}(\.[0-9]*)?|\.{_uint}")
     """Regular expression for unsigned float."""
 
     def __init__(self, text: str) -> None:
diff --git a/yangson/xpathparser.py b/yangson/xpathparser.py
index 7e4f0f2..ca222b3 100644
--- a/yangson/xpathparser.py
+++ b/yangson/xpathparser.py
@@ -24,6 +24,7 @@ This module defines the following classes:
 The module also defines the following exceptions:
 
 """
+import re
 from typing import Optional, Union
 from .schemadata import SchemaContext
 from .enumerations import Axis, MultiplicativeOp
@@ -44,6 +45,9 @@ from .xpathast import (
 class XPathParser(Parser):
     """Parser for XPath expressions."""
 
+    _step_start = re.compile("[a-zA-Z_.*@]")
+    """Regular expression for the first character of a step."""
+
     def __init__(self, text: str, sctx: SchemaContext) -> None:
         """Initialize the parser instance.
 
@@ -209,7 +213,7 @@ class XPathParser(Parser):
     def _path_expr(self, fname: str) -> Expr:
         fexpr = self._filter_expr(fname)
         if self.test_string("/"):
-            return PathExpr(fexpr, self._location_path())
+            return PathExpr(fexpr, self._relative_path(self._next_step()))
         return fexpr
 
     def _filter_expr(self, fname: str) -> Expr:
@@ -242,29 +246,40 @@ class XPathParser(Parser):
 
     def _location_path(self) -> LocationPath:
         if self.test_string("/"):
+            start = self.offset
             self.skip_ws()
-            if self.at_end():
+            if not (self._step_start.match(self.input, self.offset) or
+                    self.input.startswith("/", start)):
                 return Root()
-            op1 = LocationPath(Root(), self._step())
-        else:
-            op1 = self._step()
+            self.offset = start
+            return self._relative_path(
+                LocationPath(Root(), self._next_step()))
+        return self._relative_path(self._step())
+
+    def _relative_path(self, op1: Expr) -> Expr:
+        """Parse the remaining steps of a location path."""
         while self.test_string("/"):
-            self.skip_ws()
-            op2 = self._step()
-            op1 = LocationPath(op1, op2)
+            op1 = LocationPath(op1, self._next_step())
         return op1
 
+    def _next_step(self) -> Step:
+        """Parse the step that follows a slash."""
+        if not self.at_end() and self.peek() == "/":
+            # the second slash will be parsed as the next separator
+            return Step(Axis.descendant_or_self, None, [])
+        self.skip_ws()
+        return self._step()
+
     def _step(self) -> Step:
         return Step(*self._axis_qname(), self._predicates())
 
     def _axis_qname(self) -> tuple[Axis, Union[QualName, bool, None]]:
         next = self.peek()
+        if next == "@":
+            raise NotSupported(self, "axis 'attribute::'")
         if next == "*":
             self.adv_skip_ws()
             return (Axis.child, False)
-        if next == "/":
-            self.skip_ws()
-            return (Axis.descendant_or_self, None)
         if next == ".":
             self.offset += 1
             res = (Axis.parent if self.test_string(".") else Axis.self, None)
@@ -296,6 +311,8 @@ class XPathParser(Parser):
                 return axis, self._qname()
             if ws:
                 raise InvalidXPath(self)
+            if next == "*":
+                raise NotSupported(self, f"name test '{yid}:*'")
             nsp = self.sctx.schema_data.prefix2ns(yid, self.sctx.text_mid)
             loc = self.yang_identifier()
             self.skip_ws()
@@ -326,6 +343,8 @@ class XPathParser(Parser):
         if next == "(":
             return self._node_type(ident)
         if not ws and self.test_string(":"):
+            if self.peek() == "*":
+                raise NotSupported(self, f"name test '{ident}:*'")
             res = (
                 self.yang_identifier(),
                 self.sctx.schema_data.prefix2ns(ident, self.sctx.text_mid))
-- 
2.43.0


From 6c784e5727958de3252ac3869b00e44b319fbf2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 052/124] fix: XPath parser: at most two slashes separate
 location steps

---
 yangson/xpathparser.py | 37 +++++++++++++++++++++----------------
 1 file changed, 21 insertions(+), 16 deletions(-)

diff --git a/yangson/xpathparser.py b/yangson/xpathparser.py
index ca222b3..e3a9d75 100644
--- a/yangson/xpathparser.py
+++ b/yangson/xpathparser.py
@@ -213,7 +213,11 @@ class XPathParser(Parser):
     def _path_expr(self, fname: str) -> Expr:
         fexpr = self._filter_expr(fname)
         if self.test_string("/"):
-            return PathExpr(fexpr, self._relative_path(self._next_step()))
+            deep = self.test_string("/")
+            self.skip_ws()
+            step = self._step()
+            return PathExpr(fexpr, self._relative_path(
+                LocationPath(self._any_depth(), step) if deep else step))
         return fexpr
 
     def _filter_expr(self, fname: str) -> Expr:
@@ -246,29 +250,30 @@ class XPathParser(Parser):
 
     def _location_path(self) -> LocationPath:
         if self.test_string("/"):
-            start = self.offset
+            op1: Expr = Root()
+            deep = self.test_string("/")
+            if deep:
+                op1 = LocationPath(op1, self._any_depth())
             self.skip_ws()
-            if not (self._step_start.match(self.input, self.offset) or
-                    self.input.startswith("/", start)):
-                return Root()
-            self.offset = start
-            return self._relative_path(
-                LocationPath(Root(), self._next_step()))
+            if not deep and not self._step_start.match(
+                    self.input, self.offset):
+                return op1
+            return self._relative_path(LocationPath(op1, self._step()))
         return self._relative_path(self._step())
 
     def _relative_path(self, op1: Expr) -> Expr:
         """Parse the remaining steps of a location path."""
         while self.test_string("/"):
-            op1 = LocationPath(op1, self._next_step())
+            if self.test_string("/"):
+                op1 = LocationPath(op1, self._any_depth())
+            self.skip_ws()
+            op1 = LocationPath(op1, self._step())
         return op1
 
-    def _next_step(self) -> Step:
-        """Parse the step that follows a slash."""
-        if not self.at_end() and self.peek() == "/":
-            # the second slash will be parsed as the next separator
-            return Step(Axis.descendant_or_self, None, [])
-        self.skip_ws()
-        return self._step()
+    @staticmethod
+    def _any_depth() -> Step:
+        """Return the step that is abbreviated as a double slash."""
+        return Step(Axis.descendant_or_self, None, [])
 
     def _step(self) -> Step:
         return Step(*self._axis_qname(), self._predicates())
-- 
2.43.0


From f50a572f2dfb85a40a929c46f20a16a79c404ef4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:49 +0000
Subject: [PATCH 053/124] fix: XPath values are compared and converted as XPath
 1.0 prescribes

---
 yangson/instance.py   |   8 +-
 yangson/nodeset.py    | 185 ++++++++++++++++++++----------------------
 yangson/schemanode.py |  10 +--
 yangson/schpattern.py |   4 +-
 yangson/xpathast.py   |  75 ++++++++---------
 5 files changed, 140 insertions(+), 142 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 8bd84a3..7f0fbb3 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -688,6 +688,12 @@ class InstanceNode:
             raise NonexistentSchemaNode(self.schema_node.qual_name, *qname)
         return res
 
+    def _xpath_string(self) -> str:
+        """XPath - return the receiver's string-value."""
+        if self.is_internal():
+            return "".join([c._xpath_string() for c in self._children()])
+        return str(self)
+
     def _node_set(self) -> list["InstanceNode"]:
         """XPath - return the list of all receiver's nodes."""
         return list(self) if isinstance(self.value, ArrayValue) else [self]
@@ -712,7 +718,7 @@ class InstanceNode:
                 cn = cn.parent
                 if cn is sn:
                     return wd._member(iname)._node_set()
-                if (cn.when and not cn.when.evaluate(self) or
+                if (cn.when and not cn.when.holds(self) or
                         isinstance(cn, CaseNode) and
                         not cn._in_effect(self.value)):
                     return []
diff --git a/yangson/nodeset.py b/yangson/nodeset.py
index f26b457..a7d0310 100644
--- a/yangson/nodeset.py
+++ b/yangson/nodeset.py
@@ -16,127 +16,118 @@
 # along with Yangson.  If not, see <http://www.gnu.org/licenses/>.
 
 """XPath node-set"""
+from decimal import Decimal
+from math import isinf, isnan
+import operator
+import re
 from typing import Callable, Union
-from numbers import Number
 from .instance import InstanceNode
 
 # Type aliases
 
-NodeExpr = Callable[[InstanceNode], "NodeSet"]
+NodeExpr = Callable[[InstanceNode], list[InstanceNode]]
 XPathValue = Union["NodeSet", str, float, bool]
 
+_number_re = re.compile(r"[ \t\r\n]*(-?(?:[0-9]+(?:\.[0-9]*)?|\.[0-9]+))[ \t\r\n]*")
 
-def comparison(meth):
-    def wrap(self, arg):
-        if isinstance(arg, NodeSet):
-            for n in arg:
-                if n.is_internal():
-                    continue
-                if meth(self, str(n)):
-                    return True
-            return False
-        return meth(self, arg)
-    return wrap
+
+def xpath_number(val: Union[XPathValue, int]) -> float:
+    """Convert an XPath value to a number."""
+    if isinstance(val, str):
+        mo = _number_re.fullmatch(val)
+        return float(mo.group(1)) if mo else float("nan")
+    return float(val)
+
+
+def xpath_string(val: XPathValue) -> str:
+    """Convert an XPath value to a string."""
+    if isinstance(val, bool):
+        return "true" if val else "false"
+    if isinstance(val, float):
+        if isnan(val):
+            return "NaN"
+        if isinf(val):
+            return "Infinity" if val > 0 else "-Infinity"
+        if val == int(val):
+            return str(int(val))
+        return format(Decimal(repr(val)), "f")
+    return str(val)
+
+
+def xpath_boolean(val: XPathValue) -> bool:
+    """Convert an XPath value to a boolean."""
+    return False if isinstance(val, float) and isnan(val) else bool(val)
+
+
+def _node_number(node: InstanceNode) -> float:
+    if isinstance(node.value, bool):
+        return float(node.value)
+    return xpath_number(node._xpath_string())
 
 
 class NodeSet(list):
 
     def union(self, ns: "NodeSet") -> "NodeSet":
-        paths = set([n.path for n in self])
-        return self.__class__(self + [n for n in ns if n.path not in paths])
+        nodes = {n.path: n for n in self}
+        for n in ns:
+            nodes.setdefault(n.path, n)
+        return self.__class__(nodes.values())._sorted()
 
     def bind(self, trans: NodeExpr) -> "NodeSet":
-        return self.__class__(
+        res = self.__class__(
             {m.path: m for n in self for m in trans(n)}.values())
+        return res._sorted() if len(self) > 1 else res
+
+    def _sorted(self) -> "NodeSet":
+        """Return the receiver's nodes in document order.
+
+        The mutual order of different members of an object is not
+        significant.
+        """
+        rank: dict[str, int] = {}
+        return self.__class__(sorted(self, key=lambda n: [
+            k if isinstance(k, int) else rank.setdefault(k, len(rank))
+            for k in n.path]))
 
     def __float__(self) -> float:
-        return (float(self[0].value) if self else float("nan"))
+        return _node_number(self[0]) if self else float("nan")
 
     def __str__(self) -> str:
-        return str(self[0]) if self else ""
+        return self[0]._xpath_string() if self else ""
+
+    def _compare(self, oper: Callable[[float, float], bool],
+                 val: XPathValue) -> bool:
+        """Compare the receiver with another value as numbers."""
+        if isinstance(val, bool):
+            return oper(float(bool(self)), float(val))
+        others = ([_node_number(n) for n in val] if isinstance(val, NodeSet)
+                  else [xpath_number(val)])
+        return any(oper(n, v) for n in map(_node_number, self) for v in others)
 
-    @comparison
     def __eq__(self, val: XPathValue) -> bool:
-        for n in self:
-            if n.is_internal():
-                continue
-            if isinstance(val, str):
-                if str(n) == val:
-                    return True
-            elif isinstance(n.value, Number):
-                if float(n.value) == val:
-                    return True
-            elif n.value == val:
-                return True
-        return False
-
-    @comparison
+        if isinstance(val, str):
+            return any(n._xpath_string() == val for n in self)
+        if isinstance(val, NodeSet):
+            strings = set([n._xpath_string() for n in val])
+            return any(n._xpath_string() in strings for n in self)
+        return self._compare(operator.eq, val)
+
     def __ne__(self, val: XPathValue) -> bool:
-        for n in self:
-            if n.is_internal():
-                continue
-            if isinstance(val, str):
-                if str(n) != val:
-                    return True
-            elif isinstance(n.value, Number):
-                if float(n.value) != val:
-                    return True
-            elif n.value != val:
-                return True
-        return False
-
-    @comparison
+        if isinstance(val, str):
+            return any(n._xpath_string() != val for n in self)
+        if isinstance(val, NodeSet):
+            strings = set([n._xpath_string() for n in val])
+            return any(strings - {n._xpath_string()} for n in self)
+        return self._compare(operator.ne, val)
+
     def __gt__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
-        for n in self:
-            try:
-                if float(n.value) > val:
-                    return True
-            except (ValueError, TypeError):
-                continue
-        return False
-
-    @comparison
+        return self._compare(operator.gt, val)
+
     def __lt__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
-        for n in self:
-            try:
-                if float(n.value) < val:
-                    return True
-            except (ValueError, TypeError):
-                continue
-        return False
-
-    @comparison
+        return self._compare(operator.lt, val)
+
     def __ge__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
-        for n in self:
-            try:
-                if float(n.value) >= val:
-                    return True
-            except (ValueError, TypeError):
-                continue
-        return False
-
-    @comparison
+        return self._compare(operator.ge, val)
+
     def __le__(self, val: XPathValue) -> bool:
-        try:
-            val = float(val)
-        except (ValueError, TypeError):
-            return False
-        for n in self:
-            try:
-                if float(n.value) <= val:
-                    return True
-            except (ValueError, TypeError):
-                continue
-        return False
+        return self._compare(operator.le, val)
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 8c2bcc3..a9e84d6 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -937,7 +937,7 @@ class GroupNode(InternalNode):
     def _add_defaults(self, inst: InstanceNode, ctype: Optional[ContentType],
                       lazy: bool = False) -> InstanceNode:
         """Extend the superclass method."""
-        if self.when and not self.when.evaluate(inst):
+        if self.when and not self.when.holds(inst):
             return inst
         return super()._add_defaults(inst, ctype, lazy)
 
@@ -1042,7 +1042,7 @@ class DataNode(SchemaNode):
         if iname in pnode.value:
             return pnode
         nm = pnode.put_member(iname, (None,))
-        if not self.when or self.when.evaluate(nm):
+        if not self.when or self.when.holds(nm):
             wd = self._default_value(nm, ctype, lazy)
             if wd.value is not None:
                 return wd.up()
@@ -1050,7 +1050,7 @@ class DataNode(SchemaNode):
 
     def _check_must(self, inst: InstanceNode) -> None:
         for m in self.must:
-            if not m.expression.evaluate(inst):
+            if not m.expression.holds(inst):
                 raise SemanticError(inst, m.error_tag, m.error_message)
 
     def _pattern_entry(self) -> SchemaPattern:
@@ -1518,13 +1518,13 @@ class ChoiceNode(InternalNode):
 
     def _add_defaults(self, inst: InstanceNode,
                       ctype: Optional[ContentType]) -> InstanceNode:
-        if self.when and not self.when.evaluate(inst):
+        if self.when and not self.when.holds(inst):
             return inst
         n = ec = self._effective_case(inst.value)
         if ec is None:
             return inst
         while n is not self:
-            if n.when and not n.when.evaluate(inst):
+            if n.when and not n.when.holds(inst):
                 return inst
             n = n.parent
         return ec._add_defaults(inst, ctype)
diff --git a/yangson/schpattern.py b/yangson/schpattern.py
index 0645004..a6c4ead 100644
--- a/yangson/schpattern.py
+++ b/yangson/schpattern.py
@@ -156,7 +156,7 @@ class ConditionalPattern(Conditional):
 
     def _eval_when(self, cnode: "InstanceNode") -> SchemaPattern:
         return (self.pattern._eval_when(cnode)
-                if self.when.evaluate(cnode) else Empty())
+                if self.when.holds(cnode) else Empty())
 
     def nullable(self, ctype: ContentType) -> bool:
         """Override the superclass method."""
@@ -190,7 +190,7 @@ class Member(Typeable, Conditional):
         if self.when:
             dummy = cnode.put_member(self.name, (None,))
             return (Member(self.name, self.ctype, None)
-                    if self.when.evaluate(dummy) else Empty())
+                    if self.when.holds(dummy) else Empty())
         return self
 
     def nullable(self, ctype: ContentType) -> bool:
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 0fb6756..8a61f8c 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -35,7 +35,8 @@ from .exceptions import InvalidArgument, XPathTypeError
 from .instance import (EntryIndex, EntryKeys, EntryValue, InstanceNode,
                        MemberName)
 from .instroute import InstanceRoute
-from .nodeset import NodeExpr, NodeSet, XPathValue
+from .nodeset import (NodeExpr, NodeSet, XPathValue, xpath_boolean,
+                      xpath_number, xpath_string)
 from .typealiases import QualName
 
 
@@ -74,26 +75,26 @@ class Expr:
         """
         return self._eval(XPathContext(node, node, 1, 1))
 
+    def holds(self, node: InstanceNode) -> bool:
+        """Evaluate the receiver and convert the result to a boolean.
+
+        Args:
+            node: Context node for XPath evaluation.
+
+        Raises:
+            XPathTypeError: If a subexpression of the receiver is of a wrong
+                type.
+        """
+        return xpath_boolean(self.evaluate(node))
+
     def _eval_float(self, xctx: XPathContext) -> float:
-        val = self._eval(xctx)
-        try:
-            return float(val)
-        except ValueError:
-            return float('nan')
+        return xpath_number(self._eval(xctx))
 
     def _eval_string(self, xctx: XPathContext) -> str:
-        val = self._eval(xctx)
-        if isinstance(val, float):
-            try:
-                if int(val) == val:
-                    return str(int(val))
-            except OverflowError:
-                return "Infinity" if val > 0 else "-Infinity"
-            except ValueError:
-                return "NaN"
-        if isinstance(val, bool):
-            return str(val).lower()
-        return str(val)
+        return xpath_string(self._eval(xctx))
+
+    def _eval_bool(self, xctx: XPathContext) -> bool:
+        return xpath_boolean(self._eval(xctx))
 
     def _xfunc_name(self) -> str:
         """Return XPath function name based on the class.
@@ -213,7 +214,7 @@ class OrExpr(BinaryExpr):
         return self._as_str("or")
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return self.left._eval(xctx) or self.right._eval(xctx)
+        return self.left._eval_bool(xctx) or self.right._eval_bool(xctx)
 
 
 class AndExpr(BinaryExpr):
@@ -224,7 +225,7 @@ class AndExpr(BinaryExpr):
         return self._as_str("and")
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return self.left._eval(xctx) and self.right._eval(xctx)
+        return self.left._eval_bool(xctx) and self.right._eval_bool(xctx)
 
 
 class EqualityExpr(BinaryExpr):
@@ -246,6 +247,11 @@ class EqualityExpr(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
         lres, rres = self._eval_ops(xctx)
+        if not (isinstance(lres, NodeSet) or isinstance(rres, NodeSet)):
+            for typ, conv in ((bool, xpath_boolean), (float, xpath_number)):
+                if isinstance(lres, typ) or isinstance(rres, typ):
+                    lres, rres = conv(lres), conv(rres)
+                    break
         return lres != rres if self.negate else lres == rres
 
 
@@ -271,6 +277,8 @@ class RelationalExpr(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
         lres, rres = self._eval_ops(xctx)
+        if not (isinstance(lres, NodeSet) or isinstance(rres, NodeSet)):
+            lres, rres = xpath_number(lres), xpath_number(rres)
         if self.less:
             return lres <= rres if self.equal else lres < rres
         return lres >= rres if self.equal else lres > rres
@@ -542,10 +550,7 @@ class FuncBitIsSet(BinaryExpr):
 class FuncBoolean(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
-        val = self.expr._eval(xctx)
-        if isinstance(val, float) and isnan(val):
-            return False
-        return bool(val)
+        return self.expr._eval_bool(xctx)
 
 
 class FuncCeiling(UnaryExpr):
@@ -707,24 +712,22 @@ class FuncName(UnaryExpr):
 class FuncNormalizeSpace(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> str:
-        string = self.expr._eval_string(xctx) if self.expr else str(xctx.cnode)
-        return " ".join(string.strip().split())
+        string = (self.expr._eval_string(xctx) if self.expr
+                  else xctx.cnode._xpath_string())
+        return " ".join(re.findall("[^ \t\r\n]+", string))
 
 
 class FuncNot(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
-        return not self.expr._eval(xctx)
+        return not self.expr._eval_bool(xctx)
 
 
 class FuncNumber(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
         if self.expr is None:
-            try:
-                return float(xctx.cnode.value)
-            except ValueError:
-                return float('nan')
+            return xpath_number(NodeSet([xctx.cnode]))
         return self.expr._eval_float(xctx)
 
 
@@ -771,14 +774,15 @@ class FuncString(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> str:
         if self.expr is None:
-            return str(xctx.cnode)
+            return xctx.cnode._xpath_string()
         return self.expr._eval_string(xctx)
 
 
 class FuncStringLength(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> str:
-        string = self.expr._eval_string(xctx) if self.expr else str(xctx.cnode)
+        string = (self.expr._eval_string(xctx) if self.expr
+                  else xctx.cnode._xpath_string())
         return float(len(string))
 
 
@@ -836,10 +840,7 @@ class FuncSum(UnaryExpr):
         ns = self.expr._eval(xctx)
         if not isinstance(ns, NodeSet):
             raise XPathTypeError(str(ns))
-        try:
-            return float(sum([n.value for n in ns]))
-        except TypeError:
-            return float('nan')
+        return float(sum([xpath_number(NodeSet([n])) for n in ns]))
 
 
 class FuncTranslate(BinaryExpr):
-- 
2.43.0


From 56d2c70ce8fd9027ce8080a7cb3529936ccf925f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:34 +0000
Subject: [PATCH 054/124] fix: XPath predicates: positions are counted for each
 context node, in axis order

---
 yangson/nodeset.py  |  3 ++-
 yangson/xpathast.py | 36 ++++++++++++++++++------------------
 2 files changed, 20 insertions(+), 19 deletions(-)

diff --git a/yangson/nodeset.py b/yangson/nodeset.py
index a7d0310..212cd52 100644
--- a/yangson/nodeset.py
+++ b/yangson/nodeset.py
@@ -117,7 +117,8 @@ class NodeSet(list):
             return any(n._xpath_string() != val for n in self)
         if isinstance(val, NodeSet):
             strings = set([n._xpath_string() for n in val])
-            return any(strings - {n._xpath_string()} for n in self)
+            return any(len(strings) > 1 or n._xpath_string() not in strings
+                       for n in self) if strings else False
         return self._compare(operator.ne, val)
 
     def __gt__(self, val: XPathValue) -> bool:
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 8a61f8c..695920c 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -135,18 +135,15 @@ class Expr:
 
     def _apply_predicates(self, ns: XPathValue,
                           xctx: XPathContext) -> XPathValue:
+        if self.predicates and not isinstance(ns, NodeSet):
+            raise XPathTypeError(str(ns))
         for p in self.predicates:
             res = NodeSet([])
             size = len(ns)
             for i in range(size):
                 pval = p._eval(XPathContext(ns[i], xctx.origin, i + 1, size))
-                try:
-                    if isinstance(pval, float) and pval > 0:
-                        res.append(ns[int(pval) - 1])
-                        break
-                except IndexError:
-                    return res
-                if pval:
+                if (pval == i + 1 if isinstance(pval, float)
+                        else xpath_boolean(pval)):
                     res.append(ns[i])
             ns = res
         return ns
@@ -367,6 +364,9 @@ class UnionExpr(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> NodeSet:
         lres, rres = self._eval_ops(xctx)
+        for res in (lres, rres):
+            if not isinstance(res, NodeSet):
+                raise XPathTypeError(str(res))
         return lres.union(rres)
 
 
@@ -409,10 +409,7 @@ class PathExpr(BinaryExpr):
         ns = self.left._eval(xctx)
         if not isinstance(ns, NodeSet):
             raise XPathTypeError(str(ns))
-        res = NodeSet([])
-        for n in ns:
-            res = res.union(self.right._eval(xctx.update_cnode(n)))
-        return res
+        return ns.bind(lambda n: self.right._eval(xctx.update_cnode(n)))
 
 
 class FilterExpr(Expr):
@@ -436,9 +433,8 @@ class FilterExpr(Expr):
 class LocationPath(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> XPathValue:
-        lres = self.left._eval(xctx)
-        ns = lres.bind(self.right._node_trans())
-        return self.right._apply_predicates(ns, xctx)
+        return self.left._eval(xctx).bind(
+            lambda n: self.right._eval(xctx.update_cnode(n)))
 
     def __str__(self) -> str:
         sep = "" if isinstance(self.left, Root) else "/"
@@ -530,8 +526,12 @@ class Step(Expr):
         }[self.axis]
 
     def _eval(self, xctx: XPathContext) -> XPathValue:
-        ns = NodeSet(self._node_trans()(xctx.cnode))
-        return self._apply_predicates(ns, xctx)
+        ns = self._apply_predicates(
+            NodeSet(self._node_trans()(xctx.cnode)), xctx)
+        if self.axis in (Axis.ancestor, Axis.ancestor_or_self,
+                         Axis.preceding_sibling):
+            ns.reverse()        # document order
+        return ns
 
 
 class FuncBitIsSet(BinaryExpr):
@@ -736,8 +736,8 @@ class FuncPosition(Expr):
     def __str__(self) -> str:
         return "position()"
 
-    def _eval(self, xctx: XPathContext) -> int:
-        return xctx.position
+    def _eval(self, xctx: XPathContext) -> float:
+        return float(xctx.position)
 
 
 class FuncReMatch(BinaryExpr):
-- 
2.43.0


From 5d45330131a269510d1aa5214b535838660fca35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:34:48 +0000
Subject: [PATCH 055/124] fix: XPath node tests select by the name of the
 tested node, and never the root

---
 yangson/instance.py | 12 ++++++++++--
 yangson/xpathast.py |  9 ++++-----
 2 files changed, 14 insertions(+), 7 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 7f0fbb3..d1b1be5 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -731,8 +731,8 @@ class InstanceNode:
     def _descendants(self, qname: Union[QualName, bool] = None,
                      with_self: bool = False) -> list["InstanceNode"]:
         """XPath - return the list of receiver's descendants."""
-        res = ([] if not with_self or (qname and self.qual_name != qname)
-               else [self])
+        res = [self] if with_self and (
+            not qname or self._has_name(qname)) else []
         for c in self._children():
             if not qname or c.qual_name == qname:
                 res.append(c)
@@ -755,6 +755,10 @@ class InstanceNode:
         """XPath - return the receiver's parent as a singleton list."""
         return [self.up()]
 
+    def _has_name(self, qname: Union[QualName, bool] = None) -> bool:
+        """XPath - does the receiver satisfy a node test?"""
+        return not qname or self.qual_name == qname
+
     def _deref(self) -> list["InstanceNode"]:
         """XPath: return the list of nodes that the receiver refers to."""
         return ([] if self.is_internal() else
@@ -803,6 +807,10 @@ class RootNode(InstanceNode):
         """XPath - return an empty list because there is no parent."""
         return []
 
+    def _has_name(self, qname: Union[QualName, bool] = None) -> bool:
+        """XPath - only node() selects the root."""
+        return qname is None
+
     def _copy(self, newval: Value, newts: datetime = None) -> InstanceNode:
         return RootNode(newval, self.schema_node, self.schema_data,
                         newts if newts else newval.timestamp)
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 695920c..668094a 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -515,14 +515,13 @@ class Step(Expr):
                 lambda n, qn=self.qname: n._descendants(qn, True),
             Axis.following_sibling:
                 lambda n, qn=self.qname: n._following_siblings(qn),
-            Axis.parent: (
-                lambda n, qn=self.qname: [] if qn and qn != n.parent.qual_name
-                else n._parent()),
+            Axis.parent:
+                lambda n, qn=self.qname: [
+                    p for p in n._parent() if p._has_name(qn)],
             Axis.preceding_sibling:
                 lambda n, qn=self.qname: n._preceding_siblings(qn),
             Axis.self:
-                lambda n, qn=self.qname: [] if qn and qn != n.qual_name
-                else [n],
+                lambda n, qn=self.qname: [n] if n._has_name(qn) else [],
         }[self.axis]
 
     def _eval(self, xctx: XPathContext) -> XPathValue:
-- 
2.43.0


From e27b8078dae36562103427837ef75e2568d72563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:07 +0000
Subject: [PATCH 056/124] fix: XPath arithmetic, round, floor, ceiling,
 substring and translate follow XPath 1.0

---
 yangson/nodeset.py  | 11 ++++++++-
 yangson/xpathast.py | 54 +++++++++++++++++++--------------------------
 2 files changed, 33 insertions(+), 32 deletions(-)

diff --git a/yangson/nodeset.py b/yangson/nodeset.py
index 212cd52..640fc88 100644
--- a/yangson/nodeset.py
+++ b/yangson/nodeset.py
@@ -17,7 +17,7 @@
 
 """XPath node-set"""
 from decimal import Decimal
-from math import isinf, isnan
+from math import copysign, floor, isfinite, isinf, isnan
 import operator
 import re
 from typing import Callable, Union
@@ -59,6 +59,15 @@ def xpath_boolean(val: XPathValue) -> bool:
     return False if isinstance(val, float) and isnan(val) else bool(val)
 
 
+def xpath_round(val: float) -> float:
+    """Return the integer closest to `val`, the greater one if there are two.
+    """
+    if not isfinite(val):
+        return val
+    low = floor(val)
+    return copysign(low if val - low < 0.5 else low + 1, val)
+
+
 def _node_number(node: InstanceNode) -> float:
     if isinstance(node.value, bool):
         return float(node.value)
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 668094a..298625d 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -23,8 +23,7 @@ class is intended to be public:
 
 * Expr: XPath 1.0 expression with YANG 1.1 extensions.
 """
-import decimal
-from math import ceil, copysign, floor, isnan
+from math import ceil, copysign, floor, fmod, isfinite, isnan
 from elementpath import RegexError, translate_pattern
 from xml.sax.saxutils import quoteattr
 import re
@@ -36,7 +35,7 @@ from .instance import (EntryIndex, EntryKeys, EntryValue, InstanceNode,
                        MemberName)
 from .instroute import InstanceRoute
 from .nodeset import (NodeExpr, NodeSet, XPathValue, xpath_boolean,
-                      xpath_number, xpath_string)
+                      xpath_number, xpath_round, xpath_string)
 from .typealiases import QualName
 
 
@@ -328,11 +327,11 @@ class MultiplicativeExpr(BinaryExpr):
             try:
                 return lres / rres
             except ZeroDivisionError:
-                return (float("nan") if lres == 0.0
-                        else copysign(float('inf'), lres))
+                return (float("nan") if lres == 0.0 or isnan(lres) else
+                        copysign(float('inf'), lres) * copysign(1.0, rres))
         try:
-            return copysign(lres % rres, lres)
-        except ZeroDivisionError:
+            return fmod(lres, rres)
+        except ValueError:
             return float('nan')
 
 
@@ -555,7 +554,8 @@ class FuncBoolean(UnaryExpr):
 class FuncCeiling(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        return float(ceil(self.expr._eval_float(xctx)))
+        val = self.expr._eval_float(xctx)
+        return copysign(ceil(val), val) if isfinite(val) else val
 
 
 class FuncConcat(Expr):
@@ -664,7 +664,8 @@ class FuncFalse(Expr):
 class FuncFloor(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        return float(floor(self.expr._eval_float(xctx)))
+        val = self.expr._eval_float(xctx)
+        return copysign(floor(val), val) if isfinite(val) else val
 
 
 class FuncLast(Expr):
@@ -754,12 +755,7 @@ class FuncReMatch(BinaryExpr):
 class FuncRound(UnaryExpr):
 
     def _eval(self, xctx: XPathContext) -> float:
-        dec = decimal.Decimal(self.expr._eval_float(xctx))
-        try:
-            return float(dec.to_integral_value(
-                decimal.ROUND_HALF_UP if dec > 0 else decimal.ROUND_HALF_DOWN))
-        except decimal.InvalidOperation:
-            return float('nan')
+        return xpath_round(self.expr._eval_float(xctx))
 
 
 class FuncStartsWith(BinaryExpr):
@@ -798,23 +794,17 @@ class FuncSubstring(BinaryExpr):
         return res + ")"
 
     def _children_ast(self, indent: int) -> str:
-        return super()._children_ast(indent) + self.length.syntax_tree(indent)
+        res = super()._children_ast(indent)
+        return res + self.length.syntax_tree(indent) if self.length else res
 
     def _eval(self, xctx: XPathContext) -> str:
         string = self.left._eval_string(xctx)
-        rres = self.right._eval_float(xctx)
-        try:
-            start = round(rres) - 1
-        except (ValueError, OverflowError):
-            return "" if self.length or rres != float("-inf") else string
-        if self.length is None:
-            return string[max(start, 0):]
-        length = self.length._eval_float(xctx)
-        try:
-            end = start + round(length)
-        except (ValueError, OverflowError):
-            return string[max(start, 0):] if length == float('inf') else ""
-        return string[max(start, 0):end]
+        start = xpath_round(self.right._eval_float(xctx))
+        end = (float("inf") if self.length is None else
+               start + xpath_round(self.length._eval_float(xctx)))
+        return "".join([c for (pos, c) in enumerate(string, start=1)
+                        if pos >= start and (
+                            self.length is None or pos < end)])
 
 
 class FuncSubstringAfter(BinaryExpr):
@@ -857,8 +847,10 @@ class FuncTranslate(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> str:
         string, old = self._eval_ops_string(xctx)
-        new = self.nchars._eval_string(xctx)[:len(old)]
-        ttab = str.maketrans(old[:len(new)], new, old[len(new):])
+        new = self.nchars._eval_string(xctx)
+        ttab: dict[int, Optional[str]] = {}
+        for i, c in enumerate(old):     # the first occurrence decides
+            ttab.setdefault(ord(c), new[i] if i < len(new) else None)
         return string.translate(ttab)
 
 
-- 
2.43.0


From c1afbcf4da39d55f094c33377fc3eb4f7739d1f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:24 +0000
Subject: [PATCH 057/124] fix: XPath functions deref, derived-from, bit-is-set
 and name check the nodes they are given

---
 yangson/constraint.py | 13 +++++++++++--
 yangson/xpathast.py   | 25 +++++++++++++++----------
 2 files changed, 26 insertions(+), 12 deletions(-)

diff --git a/yangson/constraint.py b/yangson/constraint.py
index 80b0898..04fc539 100644
--- a/yangson/constraint.py
+++ b/yangson/constraint.py
@@ -159,9 +159,18 @@ class Pattern(Constraint):
             error_message if error_message else f"pattern '{pattern}'")
         self.pattern = pattern
         self.invert_match = invert_match
+        self.regex = self.compile(pattern)
+
+    @classmethod
+    def compile(cls, pattern: str) -> re.Pattern:
+        """Compile an XML Schema regular expression.
+
+        Raises:
+            InvalidArgument: If the regular expression is invalid.
+        """
         try:
-            self.regex = re.compile(translate_pattern(
-                self._expand_escapes(pattern), back_references=False,
+            return re.compile(translate_pattern(
+                cls._expand_escapes(pattern), back_references=False,
                 lazy_quantifiers=False, anchors=False))
         except RegexError:
             raise InvalidArgument(pattern) from None
diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 298625d..cc94ad9 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -30,7 +30,8 @@ import re
 from typing import Optional
 from .schemadata import SchemaContext
 from .enumerations import Axis, MultiplicativeOp
-from .exceptions import InvalidArgument, XPathTypeError
+from .exceptions import (InvalidArgument, NonexistentInstance,
+                         XPathTypeError)
 from .instance import (EntryIndex, EntryKeys, EntryValue, InstanceNode,
                        MemberName)
 from .instroute import InstanceRoute
@@ -540,8 +541,9 @@ class FuncBitIsSet(BinaryExpr):
             raise XPathTypeError(str(ns))
         bit = self.right._eval_string(xctx)
         try:
-            return bit in ns[0].value
-        except (IndexError, TypeError):
+            node = ns[0]
+            return bit in node.schema_node.type.bit and bit in node.value
+        except (AttributeError, IndexError):
             return False
 
 
@@ -604,8 +606,12 @@ class FuncDeref(UnaryExpr):
         ns = self.expr._eval(xctx)
         if not isinstance(ns, NodeSet):
             raise XPathTypeError(str(ns))
-        ref = ns[0]
-        return NodeSet(ref._deref())
+        if not ns:
+            return NodeSet([])
+        try:
+            return NodeSet(ns[0]._deref())
+        except NonexistentInstance:
+            return NodeSet([])
 
 
 class FuncDerivedFrom(BinaryExpr):
@@ -631,7 +637,7 @@ class FuncDerivedFrom(BinaryExpr):
             self.right._eval_string(xctx), self.sctx.text_mid)
         for n in ns:
             if not n.schema_node._is_identityref():
-                return False
+                continue
             if self.or_self and n.value == i:
                 return True
             if self.sctx.schema_data.is_derived_from(n.value, i):
@@ -695,12 +701,11 @@ class FuncName(UnaryExpr):
             node = xctx.cnode
         else:
             ns = self.expr._eval(xctx)
-            try:
-                node = ns[0]
-            except TypeError:
+            if not isinstance(ns, NodeSet):
                 raise XPathTypeError(str(ns))
-            except IndexError:
+            if not ns:
                 return ""
+            node = ns[0]
         if node.parinst is None:
             return ""
         if self.local:
-- 
2.43.0


From e628284f2c527598214f66bd0fe62f1edea9cb25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:11 +0000
Subject: [PATCH 058/124] fix: XPath function re-match reads its pattern as the
 pattern statement does

---
 yangson/xpathast.py | 12 +++---------
 1 file changed, 3 insertions(+), 9 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index cc94ad9..fb55ef7 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -24,14 +24,12 @@ class is intended to be public:
 * Expr: XPath 1.0 expression with YANG 1.1 extensions.
 """
 from math import ceil, copysign, floor, fmod, isfinite, isnan
-from elementpath import RegexError, translate_pattern
 from xml.sax.saxutils import quoteattr
 import re
 from typing import Optional
 from .schemadata import SchemaContext
 from .enumerations import Axis, MultiplicativeOp
-from .exceptions import (InvalidArgument, NonexistentInstance,
-                         XPathTypeError)
+from .exceptions import NonexistentInstance, XPathTypeError
 from .instance import (EntryIndex, EntryKeys, EntryValue, InstanceNode,
                        MemberName)
 from .instroute import InstanceRoute
@@ -748,13 +746,9 @@ class FuncPosition(Expr):
 class FuncReMatch(BinaryExpr):
 
     def _eval(self, xctx: XPathContext) -> bool:
+        from .constraint import Pattern     # it depends on this module
         lres, rres = self._eval_ops_string(xctx)
-        try:
-            return re.match(translate_pattern(
-                rres, back_references=False,
-                lazy_quantifiers=False, anchors=False), lres) is not None
-        except RegexError:
-            raise InvalidArgument(rres) from None
+        return Pattern.compile(rres).match(lres) is not None
 
 
 class FuncRound(UnaryExpr):
-- 
2.43.0


From a827ad7dc9c5b68e4d0b0aff5848b7fec5fa9242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:15 +0000
Subject: [PATCH 059/124] fix: XPath deref() of a node that is not a reference
 is an empty node set

---
 yangson/datatype.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 5c80b02..7f534c3 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -96,6 +96,10 @@ class DataType(ABC, Generic[S, RS]):
         base = self.yang_type()
         return f"{self.name}({base})" if self.name else base
 
+    def _deref(self, node: InstanceNode) -> list[InstanceNode]:
+        """XPath: only link types refer to other nodes."""
+        return []
+
     @abstractmethod
     def from_raw(self, raw: RS) -> Optional[S]:
         """Return a cooked value of the receiver type.
-- 
2.43.0


From 98b4306c70818f420e36c6427a85378f3b080e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:01 +0000
Subject: [PATCH 060/124] fix: XPath string-value of a node doesn't depend on
 how the node was reached

---
 yangson/instance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index d1b1be5..e7a3993 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -691,7 +691,10 @@ class InstanceNode:
     def _xpath_string(self) -> str:
         """XPath - return the receiver's string-value."""
         if self.is_internal():
-            return "".join([c._xpath_string() for c in self._children()])
+            # the order of members may depend on how the node was reached
+            order = [c.qual_name for c in self.schema_node.data_children()]
+            return "".join([c._xpath_string() for c in sorted(
+                self._children(), key=lambda c: order.index(c.qual_name))])
         return str(self)
 
     def _node_set(self) -> list["InstanceNode"]:
-- 
2.43.0


From d3702a65efb0fcf0c4b5bd62055f79fc7d3430c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:52 +0000
Subject: [PATCH 061/124] fix: printed XPath expressions keep parentheses,
 steps and literals

---
 yangson/xpathast.py | 37 ++++++++++++++++++++++++-------------
 1 file changed, 24 insertions(+), 13 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index fb55ef7..133d759 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -24,7 +24,6 @@ class is intended to be public:
 * Expr: XPath 1.0 expression with YANG 1.1 extensions.
 """
 from math import ceil, copysign, floor, fmod, isfinite, isnan
-from xml.sax.saxutils import quoteattr
 import re
 from typing import Optional
 from .schemadata import SchemaContext
@@ -374,7 +373,10 @@ class Literal(Expr):
         self.value = value
 
     def __str__(self) -> str:
-        return quoteattr(self.value)
+        quote = "'" if '"' in self.value else '"'
+        val = self.value.translate(
+            {9: "&#9;", 10: "&#10;", 13: "&#13;"})
+        return quote + val + quote
 
     def _properties_str(self) -> str:
         return self.value
@@ -389,7 +391,8 @@ class Number(Expr):
         self.value = value
 
     def __str__(self) -> str:
-        return str(self.value)
+        res = str(self.value)
+        return xpath_string(self.value) if "e" in res else res
 
     def _properties_str(self) -> str:
         return str(self.value)
@@ -417,8 +420,10 @@ class FilterExpr(Expr):
         self.predicates = predicates
 
     def __str__(self) -> str:
-        return (str(self.primary) +
-                "".join([f"[{p}]" for p in self.predicates]))
+        prim = str(self.primary)
+        if not self.primary.__class__.__name__.startswith("Func"):
+            prim = f"({prim})"
+        return prim + "".join([f"[{p}]" for p in self.predicates])
 
     def _children_ast(self, indent) -> str:
         return self.primary.syntax_tree(indent) + self._predicates_str(indent)
@@ -435,8 +440,10 @@ class LocationPath(BinaryExpr):
             lambda n: self.right._eval(xctx.update_cnode(n)))
 
     def __str__(self) -> str:
-        sep = "" if isinstance(self.left, Root) else "/"
-        return f"{self.left}{sep}{self.right}"
+        left, sep = self.left, "/"
+        if isinstance(left, LocationPath) and left.right._is_any_depth():
+            left, sep = left.left, "//"
+        return f"{'' if isinstance(left, Root) else left}{sep}{self.right}"
 
     def as_instance_route(self) -> InstanceRoute:
         return InstanceRoute(self.left.as_instance_route() +
@@ -466,12 +473,11 @@ class Step(Expr):
         self.predicates = predicates
 
     def __str__(self) -> str:
-        if self.axis == Axis.descendant_or_self and self.qname is None:
-            return ""
-        if self.axis == Axis.self and self.qname is None:
-            return "."
-        if self.axis == Axis.parent and self.qname is None:
-            return ".."
+        if self.qname is None and not self.predicates:
+            if self.axis == Axis.self:
+                return "."
+            if self.axis == Axis.parent:
+                return ".."
         if self.qname:
             qn = f"{self.qname[1]}:{self.qname[0]}"
         elif self.qname is None:
@@ -482,6 +488,11 @@ class Step(Expr):
         prs = "".join([f"[{p}]" for p in self.predicates])
         return ax + qn + prs
 
+    def _is_any_depth(self) -> bool:
+        """Is the receiver the step abbreviated as a double slash?"""
+        return (self.axis == Axis.descendant_or_self and
+                self.qname is None and not self.predicates)
+
     def as_instance_route(self) -> InstanceRoute:
         m = MemberName(*self.qname)
         if not self.predicates:
-- 
2.43.0


From 283dabeca8fd7b53b169390083ef153da49b75d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:53 +0000
Subject: [PATCH 062/124] fix: syntax_tree of the XPath functions derived-from
 and derived-from-or-self

---
 yangson/xpathast.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 133d759..82fe619 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -635,8 +635,7 @@ class FuncDerivedFrom(BinaryExpr):
         return ("derived-from-or-self" if self.or_self else "derived-from")
 
     def _properties_str(self) -> str:
-        return ("OR-SELF, " if self.or_self
-                else "") + self.sctx.schema_data.namespace(self.mid)
+        return "OR-SELF" if self.or_self else ""
 
     def _eval(self, xctx: XPathContext) -> bool:
         ns = self.left._eval(xctx)
-- 
2.43.0


From ecab6deff4360584270a2f63c761eb38d56aecd8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:42 +0000
Subject: [PATCH 063/124] fix: mandatory nodes inside notifications don't make
 the containing node mandatory; digest has all notifications

---
 yangson/schemanode.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index a9e84d6..6bfce63 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -669,7 +669,7 @@ class InternalNode(SchemaNode):
             if self.config and not c.config:
                 cdig["config"] = False
         for c in [c for c in self.children if isinstance(c, SchemaTreeNode)]:
-            rc[c.iname()] = c._node_digest()
+            rc[c._tree_name()] = c._node_digest()
         return res
 
     def _validate(self, inst: InstanceNode,
@@ -966,6 +966,10 @@ class SchemaTreeNode(GroupNode):
         """Override the superclass method."""
         return None
 
+    def _add_mandatory_child(self, node: SchemaNode) -> None:
+        """Override the superclass method: nothing is mandatory outside."""
+        InternalNode._add_mandatory_child(self, node)
+
     def _annotation_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
         """Handle annotation statement."""
         if not sctx.schema_data.if_features(stmt, sctx.text_mid):
-- 
2.43.0


From 32382e9e0dd6bd3486151d122f1d670c71767d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:21 +0000
Subject: [PATCH 064/124] fix: description in a refine statement replaces that
 of the refined node

---
 yangson/schemanode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 6bfce63..5a0c9c2 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -801,6 +801,7 @@ class InternalNode(SchemaNode):
         else:
             if isinstance(target, LeafListNode) and stmt.find1("default"):
                 target._default = None
+            target._get_description(stmt)
             target._handle_substatements(stmt, sctx)
 
     def _uses_stmt(self, stmt: Statement, sctx: SchemaContext) -> None:
-- 
2.43.0


From 14201dc5fb3564fbd7ecd7adeefc0c4f0ce49b88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:12:42 +0000
Subject: [PATCH 065/124] fix: bits in the schema digest are at the index of
 their position

---
 yangson/datatype.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 7f534c3..02e251c 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -370,6 +370,7 @@ class BitsType(DataType[tuple[str, ...], str]):
                 bits.append(None)
                 i += 1
             bits.append(b[0])
+            i += 1
         res["bits"] = bits
         return res
 
-- 
2.43.0


From a49542e6c3de5494ea4b5d26e350eac475cc17e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:20 +0000
Subject: [PATCH 066/124] fix: default values of leaf-lists in the schema
 digest

---
 yangson/schemanode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 5a0c9c2..917c740 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1115,7 +1115,9 @@ class TerminalNode(SchemaNode):
         res = super()._node_digest()
         res["type"] = self.type._type_digest(self.config)
         df = self.default
-        if df is not None:
+        if isinstance(df, ArrayValue):
+            res["default"] = [self.type.to_raw(v) for v in df]
+        elif df is not None:
             res["default"] = self.type.to_raw(df)
         if self.units:
             res["units"] = self.units
-- 
2.43.0


From 27062881614b45be830820a8b785354eb4724be4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:20 +0000
Subject: [PATCH 067/124] fix: the largest length of strings and binary values
 is that of RFC 7950

---
 yangson/datatype.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 02e251c..497990d 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -444,7 +444,7 @@ class LinearType(DataType[L, str]):
         if lstmt:
             if self.length is None:
                 self.length = Intervals[int](
-                    [[0, 4294967295]], error_message="invalid length")
+                    [[0, 18446744073709551615]], error_message="invalid length")
             self.length.restrict_with(
                 cast(str, lstmt.argument), *lstmt.get_error_info())
 
-- 
2.43.0


From e9db6efa9beb3a360a80175901ae370fc5352c99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:40 +0000
Subject: [PATCH 068/124] fix: operations from conditional groups are in the
 schema digest

---
 yangson/schemanode.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 917c740..2108736 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -668,8 +668,10 @@ class InternalNode(SchemaNode):
             cdig = rc[c.iname()] = c._node_digest()
             if self.config and not c.config:
                 cdig["config"] = False
-        for c in [c for c in self.children if isinstance(c, SchemaTreeNode)]:
-            rc[c._tree_name()] = c._node_digest()
+        for c in [f for c in self.children for f in c._flatten()]:
+            if isinstance(c, SchemaTreeNode):
+                rc[c.name if c.ns == self.ns else f"{c.ns}:{c.name}"] = \
+                    c._node_digest()
         return res
 
     def _validate(self, inst: InstanceNode,
-- 
2.43.0


From 7e55190ee9087118b2c2a0b4c9968e129ce413f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:03 +0000
Subject: [PATCH 069/124] fix: data paths of the root and below leaves

---
 yangson/datamodel.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index b5a86d9..ee02701 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -183,14 +183,14 @@ class DataModel:
             InvalidSchemaPath: If the schema path is invalid.
         """
         addr = self.schema_data.path2route(path)
-        node: InternalNode = self.schema
+        node = self.schema
         for p in addr:
-            child = node.get_data_child(*p)
-            if child is None:
+            if not isinstance(node, InternalNode):
                 return None
-            if isinstance(child, InternalNode):
-                node = child
-        return child
+            node = node.get_data_child(*p)
+            if node is None:
+                return None
+        return node
 
     def ascii_tree(self, no_types: bool = False,
                    val_count: bool = False) -> str:
-- 
2.43.0


From eddec7944ecc7af6539990ded3239532b92b51ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:20 +0000
Subject: [PATCH 070/124] fix: names of nodes from conditional groups in the
 ASCII tree

---
 yangson/schemanode.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 2108736..a5f2be3 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -242,7 +242,10 @@ class SchemaNode:
 
     def _tree_name(self) -> str:
         """Return the receiver's name to be displayed in ASCII tree."""
-        return cast(str, self.name if self.parent and self.ns == self.parent.ns
+        par = self.parent
+        while par and par.name is None and par.parent:   # anonymous group
+            par = par.parent
+        return cast(str, self.name if par and self.ns == par.ns
                     else f"{self.ns}:{self.name}")
 
     def _validate(self, inst: InstanceNode, scope: ValidationScope,
-- 
2.43.0


From a0e94a7d6fec50d9bb99e78c7e2d85db027570ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:41 +0000
Subject: [PATCH 071/124] fix: state data roots with anydata, anyxml and choice
 nodes

---
 yangson/schemanode.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index a5f2be3..4e50ab2 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -752,7 +752,8 @@ class InternalNode(SchemaNode):
         return inst
 
     def _state_roots(self) -> list[SchemaNode]:
-        if self.content_type() == ContentType.nonconfig:
+        if (isinstance(self, DataNode) and
+                self.content_type() == ContentType.nonconfig):
             return [self]
         res = []
         for c in self.data_children():
@@ -1788,6 +1789,9 @@ class AnyContentNode(DataNode):
     def _ascii_tree(self, indent: str, no_types: bool, val_count: bool) -> str:
         return ""
 
+    def _state_roots(self) -> list[SchemaNode]:
+        return [] if self.content_type() == ContentType.config else [self]
+
     def _post_process(self) -> None:
         if self._mandatory:
             self.parent._add_mandatory_child(self)
-- 
2.43.0


From f0fe27d4080d2fe103907907d39f63b85863297a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:55:16 +0000
Subject: [PATCH 072/124] fix: ASCII tree of nodes that only have empty
 conditional groups

---
 yangson/schemanode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 4e50ab2..4532303 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -898,11 +898,11 @@ class InternalNode(SchemaNode):
         def suffix(sn):
             return f" {{{sn.val_count}}}\n" if val_count and isinstance(
                 sn, (SchemaTreeNode, DataNode)) else "\n"
-        if not self.children:
-            return ""
         cs = []
         for c in self.children:
             cs.extend(c._flatten())
+        if not cs:
+            return ""
         cs.sort(key=lambda x: x.qual_name)
         res = ""
         for c in cs[:-1]:
-- 
2.43.0


From 6bce85ba6d283d10757510f03a1db2ad2ba6f3bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:37 +0000
Subject: [PATCH 073/124] fix: list entries looked up by something else than
 leaves

---
 yangson/instance.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index e7a3993..a21fd33 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1291,6 +1291,8 @@ class EntryKeys:
             knod = sn.get_data_child(*k)
             if knod is None:
                 raise NonexistentSchemaNode(sn.qual_name, *k)
+            if not isinstance(knod, LeafNode):
+                raise BadSchemaNodeType(knod.qual_name, "leaf")
             kval = knod.type.parse_value(self.keys[k])
             if kval is None:
                 raise InvalidKeyValue(self.keys[k])
-- 
2.43.0


From b52e6671d5cfc09270da3fd12bfeab1899c56ed9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:02:56 +0000
Subject: [PATCH 074/124] fix: empty values and final slashes in resource
 identifiers

---
 yangson/instance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index a21fd33..1019939 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1389,10 +1389,10 @@ class ResourceIdParser(Parser):
         """Parse leaf-list value or list keys."""
         try:
             keys = self.up_to("/")
+            if self.at_end():
+                raise UnexpectedInput(self, "YANG identifier")
         except EndOfInput:
             keys = self.remaining()
-        if not keys:
-            raise UnexpectedInput(self, "entry value or keys")
         if isinstance(sn, LeafListNode):
             return EntryValue(unquote(keys))
         ks = keys.split(",")
-- 
2.43.0


From 9a20c9886c86f2bc2bbe2a94a7e66fea619b9fc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:14 +0000
Subject: [PATCH 075/124] fix: unqualified top-level names of nodes inside
 choices

---
 yangson/schemanode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 4532303..4fc3bad 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -510,6 +510,8 @@ class InternalNode(SchemaNode):
                        ns: YangIdentifier = None) -> Optional["DataNode"]:
         """Return data node directly under the receiver."""
         ns = ns if ns else self.ns
+        if ns is None:          # top-level names must be qualified
+            return None
         todo = []
         for child in self.children:
             if child.name == name and child.ns == ns:
-- 
2.43.0


From e13744a6a7ddbaf22405afb4dfa47802e0bfbbec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:04:28 +0000
Subject: [PATCH 076/124] fix: peeking at a position inside a string value

---
 yangson/instance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 1019939..fe8cfaf 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -1190,8 +1190,8 @@ class EntryIndex:
     def peek_step(self, val: ObjectValue,
                   sn: "DataNode") -> tuple[Optional[Value], "DataNode"]:
         try:
-            return val[self.index], sn
-        except (IndexError, KeyError, TypeError):
+            return val[self.index] if isinstance(val, ArrayValue) else None, sn
+        except IndexError:
             return None, sn
 
     def goto_step(self, inst: InstanceNode) -> InstanceNode:
-- 
2.43.0


From 9938a444c2c84ed4140ac0020e49d45afae970c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:33 +0000
Subject: [PATCH 077/124] fix: empty XML elements of number and boolean types

---
 yangson/datatype.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 497990d..a8973ba 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -393,7 +393,7 @@ class BooleanType(DataType[bool, bool]):
         Args:
             xml: Text of the XML node
         """
-        return self.parse_value(cast(str, xml.text))
+        return self.parse_value(xml.text or "")
 
     def to_raw(self, val: bool) -> Optional[bool]:
         return val if val in self else None
@@ -975,7 +975,7 @@ class IntegralType(NumericType[int, RN]):
             return None
 
     def from_xml(self, xml: ET.Element) -> Optional[int]:
-        return self.parse_value(cast(str, xml.text))
+        return self.parse_value(xml.text or "")
 
     def from_yang(self, text: str,
                   sctx: Optional[SchemaContext] = None) -> int:
@@ -1031,7 +1031,7 @@ class Int64Type(IntegralType[str]):
 
         XML is always delivered as a text element
         """
-        return self.parse_value(cast(str, xml.text))
+        return self.parse_value(xml.text or "")
 
     def to_raw(self, val: int) -> Optional[str]:
         return self.canonical_string(val)
@@ -1084,7 +1084,7 @@ class Uint64Type(IntegralType[str]):
 
         XML is always delivered as a text element
         """
-        return self.parse_value(cast(str, xml.text))
+        return self.parse_value(xml.text or "")
 
     def to_raw(self, val: int) -> Optional[str]:
         return self.canonical_string(val)
-- 
2.43.0


From 0b01d9b57f2c72dabfbb40abbea8d2f1886fb808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:20:52 +0000
Subject: [PATCH 078/124] fix: notifications in XML

---
 yangson/instance.py   | 10 ++++++++--
 yangson/schemanode.py |  2 +-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index fe8cfaf..707cd03 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -798,9 +798,15 @@ class RootNode(InstanceNode):
         """put receiver's value into a XML element"""
         element = ET.Element(tag)
         element.attrib['xmlns'] = urn
+        if isinstance(self.schema_node, NotificationNode):
+            module = self.schema_data.modules_by_name.get(self.schema_node.ns)
+            if not module:
+                raise MissingModuleNamespace(self.schema_node.ns)
+            element = ET.Element(self.schema_node.name)
+            element.attrib['xmlns'] = module.xml_namespace
         et = super().to_xml(filter, element)
-        if isinstance(self.schema_node, (RpcActionNode, NotificationNode)):
-            return et[0]
+        if isinstance(self.schema_node, RpcActionNode):
+            return et[0] if len(et) else None
         return et
 
     def _cook_value(self, value: Union[RawValue, Value], raw: bool) -> Value:
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 4fc3bad..1e37bab 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -628,7 +628,7 @@ class InternalNode(SchemaNode):
         if ch is None:
             raise RawMemberError(npath)
 
-        if rval is not None and self.ns == ch.ns:
+        if jptr != "" and self.ns == ch.ns:
             iname = ch.name
         else:
             iname = '{1}:{0}'.format(*ch.qual_name)
-- 
2.43.0


From 06c4c25b8703f3c3a879f216d65705b97263e026 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:10 +0000
Subject: [PATCH 079/124] fix: prefixes of identities in XML

---
 yangson/datatype.py | 25 ++++++++++++-------------
 1 file changed, 12 insertions(+), 13 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index a8973ba..0b05385 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -774,21 +774,17 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
         except AttributeError:
             return None
 
-        if not s:
-            # not prefixed, so assume default ns
-            return (i1, self.sctx.default_ns)
-        elif i1 == self.sctx.default_ns:
-            # prefixed with default ns
-            return (i2, self.sctx.default_ns)
-
-        # the following code has issues (Issue #79)
-        ns_url = xml.attrib.get('xmlns:'+i1)
-        if not ns_url:
-            raise MissingModuleNamespace(cast(str, ns_url))
+        name = i2 if s else i1
+        ns_url = xml.attrib.get('xmlns:'+i1 if s else 'xmlns')
+        if ns_url is None:
+            if s and i1 != self.sctx.default_ns:
+                raise MissingModuleNamespace(i1)
+            # not prefixed or prefixed with default ns
+            return (name, self.sctx.default_ns)
         module = self.sctx.schema_data.modules_by_ns.get(ns_url)
         if not module:
             raise MissingModuleNamespace(ns_url)
-        return (i2, module.main_module[0])
+        return (name, module.main_module[0])
 
     def to_raw(self, val: QualName) -> YangIdentifier:
         return self.canonical_string(val)
@@ -1142,7 +1138,10 @@ class UnionType(DataType[ScalarValue, RawScalar]):
 
     def from_xml(self, xml: ET.Element) -> Optional[ScalarValue]:
         for t in self.types:
-            val = t.from_xml(xml)
+            try:
+                val = t.from_xml(xml)
+            except MissingModuleNamespace:
+                continue
             if val is not None and val in t:
                 return val
         return None
-- 
2.43.0


From 95c92388f42abb3fc000a956f28f32aa217d4283 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:25 +0000
Subject: [PATCH 080/124] fix: namespaces of identities and instance
 identifiers in exported XML

---
 yangson/datatype.py | 77 ++++++++++++++++++++++++++++++++++++++++++---
 yangson/instance.py | 12 +++----
 2 files changed, 77 insertions(+), 12 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 0b05385..54e22a1 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -48,7 +48,7 @@ import base64
 import decimal
 import xml.etree.ElementTree as ET
 import re
-from typing import (Any, cast, ClassVar, Generic, Optional, Type,
+from typing import (Any, Callable, cast, ClassVar, Generic, Optional, Type,
                     TYPE_CHECKING)
 
 from .constraint import Intervals, Pattern
@@ -56,7 +56,8 @@ from .exceptions import (
     InvalidArgument, ParserException, ModuleNotRegistered, UnknownPrefix,
     InvalidLeafrefPath, MissingModuleNamespace, XPathTypeError)
 from .schemadata import SchemaContext
-from .instance import InstanceNode, InstanceIdParser
+from .instance import (
+    EntryKeys, InstanceNode, InstanceIdParser, MemberName)
 from .instroute import InstanceRoute
 from .nodeset import NodeSet
 from .statement import Statement
@@ -130,6 +131,10 @@ class DataType(ABC, Generic[S, RS]):
         """Return XML text value ready to be serialized in XML."""
         return str(val) if val in self else None
 
+    def _xml_prefixes(self, val: S) -> list[YangIdentifier]:
+        """Return names of modules that are prefixes in the XML value."""
+        return []
+
     @abstractmethod
     def parse_value(self, text: str) -> Optional[S]:
         """Parse value of the receiver's type.
@@ -658,6 +663,9 @@ class LeafrefType(LinkType[ScalarValue, RawScalar]):
     def to_xml(self, val: ScalarValue) -> Optional[str]:
         return self.ref_type.to_xml(val)
 
+    def _xml_prefixes(self, val: ScalarValue) -> list[YangIdentifier]:
+        return self.ref_type._xml_prefixes(val)
+
     def parse_value(self, text: str) -> Optional[ScalarValue]:
         return self.ref_type.parse_value(text)
 
@@ -717,7 +725,24 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
         return self.from_raw(text)
 
     def from_xml(self, xml: ET.Element) -> Optional[InstanceRoute]:
-        return self.from_raw(cast(InstanceIdentifier, xml.text))
+        """Override the superclass method.
+
+        Prefixes are translated to module names.
+        """
+        route = self.from_raw(cast(InstanceIdentifier, xml.text))
+        return None if route is None else self._renamed(
+            route, lambda p: self._xml_module(xml, p))
+
+    def _xml_module(self, xml: ET.Element,
+                    prefix: YangIdentifier) -> YangIdentifier:
+        """Return the module whose namespace `prefix` denotes."""
+        ns_url = xml.attrib.get('xmlns:' + prefix)
+        if ns_url is None:
+            return prefix
+        module = self.sctx.schema_data.modules_by_ns.get(ns_url)
+        if not module:
+            raise MissingModuleNamespace(ns_url)
+        return module.main_module[0]
 
     def to_raw(self, val: InstanceRoute) -> InstanceIdentifier:
         """Override the superclass method."""
@@ -725,7 +750,42 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
 
     def to_xml(self, val: InstanceRoute) -> InstanceIdentifier:
         """Override the superclass method."""
-        return str(val)
+        return str(self._renamed(val, qualify=True))
+
+    def _xml_prefixes(self, val: InstanceRoute) -> list[YangIdentifier]:
+        return [m.namespace for m in val
+                if isinstance(m, MemberName) and m.namespace]
+
+    @staticmethod
+    def _renamed(route: InstanceRoute,
+                 translate: Callable[[str], str] = lambda x: x,
+                 qualify: bool = False) -> InstanceRoute:
+        """Return `route` with translated prefixes.
+
+        Args:
+            route: Instance route.
+            translate: Function that translates a prefix to a module name.
+            qualify: If true, all names are qualified in the result;
+                otherwise only those whose module differs from the parent's.
+        """
+        def prefix(pfx: Optional[YangIdentifier],
+                   current: Optional[YangIdentifier]) -> tuple[
+                       Optional[YangIdentifier], Optional[YangIdentifier]]:
+            mod = translate(pfx) if pfx else current
+            return (mod, mod if qualify or mod != current else None)
+        res: list[Any] = []
+        ns = None
+        for item in route:
+            if isinstance(item, MemberName):
+                ns, pfx = prefix(item.namespace, ns)
+                res.append(MemberName(item.name, pfx))
+            elif isinstance(item, EntryKeys):
+                res.append(EntryKeys({
+                    (k[0], prefix(k[1], ns)[1]): val
+                    for k, val in item.keys.items()}))
+            else:
+                res.append(item)
+        return InstanceRoute(res)
 
     def from_yang(self, text: str,
                   sctx: Optional[SchemaContext] = None) -> InstanceRoute:
@@ -792,6 +852,9 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
     def to_xml(self, val: QualName) -> YangIdentifier:
         return self.canonical_string(val)
 
+    def _xml_prefixes(self, val: QualName) -> list[YangIdentifier]:
+        return [val[1]]
+
     def from_yang(self, text: YangIdentifier,
                   sctx: Optional[SchemaContext] = None) -> QualName:
         """Override the superclass method."""
@@ -1116,6 +1179,12 @@ class UnionType(DataType[ScalarValue, RawScalar]):
                 return t.to_xml(val)
         return None
 
+    def _xml_prefixes(self, val: ScalarValue) -> list[YangIdentifier]:
+        for t in self.types:
+            if val in t:
+                return t._xml_prefixes(val)
+        return []
+
     def canonical_string(self, val: ScalarValue) -> Optional[str]:
         for t in self.types:
             if val in t:
diff --git a/yangson/instance.py b/yangson/instance.py
index 707cd03..d6fab44 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -622,13 +622,11 @@ class InstanceNode:
         else:
             sn = self.schema_node
             if isinstance(sn, TerminalNode):
-                if isinstance(sn.type, IdentityrefType):
-                    module = self.schema_data.modules_by_name.get(
-                        self.value[1])
+                for mn in sn.type._xml_prefixes(self.value):
+                    module = self.schema_data.modules_by_name.get(mn)
                     if not module:
-                        raise MissingModuleNamespace(sn.ns)
-                    element.attrib[
-                        'xmlns:'+self.value[1]] = module.xml_namespace
+                        raise MissingModuleNamespace(mn)
+                    element.attrib['xmlns:'+mn] = module.xml_namespace
                 element.text = sn.type.to_xml(self.value)
 
         if elem is not None:
@@ -1477,5 +1475,3 @@ from .schemanode import (       # NOQA
             InternalNode, LeafNode, LeafListNode, ListNode, NotificationNode,
             OutputNode, RpcActionNode, SequenceNode, SchemaTreeNode,
             TerminalNode)
-from .datatype import (         # NOQA
-            IdentityrefType)
-- 
2.43.0


From 34294490259897a7120647234beed3d7b0aac59c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:59 +0000
Subject: [PATCH 081/124] fix: metadata annotations in exported XML

---
 yangson/instance.py   | 33 ++++++++++++---------------------
 yangson/schemanode.py | 25 +++++++++++++++++++++++++
 2 files changed, 37 insertions(+), 21 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index d6fab44..1d9f76a 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -549,8 +549,6 @@ class InstanceNode:
     def to_xml(self, filter: OutputFilter = OutputFilter(),
                elem: ET.Element = None):
         """put receiver's value into a XML element"""
-        has_default_ns = False
-
         if elem is None:
             element = ET.Element(self.schema_node.name)
 
@@ -575,9 +573,12 @@ class InstanceNode:
                     dp = sn.data_parent()
 
                     if isinstance(m.schema_node, (ListNode, LeafListNode)):
-                        for en in m:
-                            if isinstance(en, dict) and '@' in en.value:
-                                e_attr = en['@'].copy()
+                        for i, en in enumerate(m):
+                            if (isinstance(en.value, ObjectValue)
+                                    and '@' in en.value):
+                                e_attr = en.value['@'].copy()
+                            elif isinstance(m_attr, list) and i < len(m_attr):
+                                e_attr = (m_attr[i] or {}).copy()
                             else:
                                 e_attr = {}
                             add1 = filter.begin_element(m, en, e_attr)
@@ -591,8 +592,7 @@ class InstanceNode:
                                 en.to_xml(filter, child)
                             add2 = filter.end_element(m, en, e_attr)
                             if add1 and add2:
-                                for a in e_attr:
-                                    child.attrib[a] = str(e_attr[a])
+                                sn._xml_metadata(e_attr, child)
                                 childs.append(child)
                     else:
                         child = ET.Element(sn.name)
@@ -606,16 +606,13 @@ class InstanceNode:
                         childs.append(child)
                 if filter.end_member(self, m, m_attr):
                     for c in childs:
-                        for a in m_attr:
-                            # should only happen if the child was no list
-                            if a == 'ietf-netconf-with-defaults:default':
-                                c.attrib['wd:default'] = str(m_attr[a])
-                                has_default_ns = True
-                            else:
-                                c.attrib[a] = str(m_attr[a])
+                        if isinstance(m_attr, dict):
+                            sn._xml_metadata(m_attr, c)
                         element.append(c)
             if elem is None and len(element) == 0:
                 return None
+            if '@' in self.value and (elem is None or isinstance(self, RootNode)):
+                self.schema_node._xml_metadata(self.value['@'], element)
         elif isinstance(self.value, ArrayValue):
             # Array outside an Object doesn't make sense
             raise NotImplementedError
@@ -629,13 +626,7 @@ class InstanceNode:
                     element.attrib['xmlns:'+mn] = module.xml_namespace
                 element.text = sn.type.to_xml(self.value)
 
-        if elem is not None:
-            return element
-        else:
-            if has_default_ns:
-                element.attrib[
-                    'xmlns:wd'] = 'urn:ietf:params:xml:ns:netconf:default:1.0'
-            return element
+        return element
 
     def _member_names(self) -> list[InstanceName]:
         if isinstance(self.value, ObjectValue):
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 1e37bab..d8adfaf 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -203,6 +203,31 @@ class SchemaNode:
         """
         raise NotImplementedError
 
+    def _xml_metadata(self, md: MetadataObject, element: ET.Element) -> None:
+        """Add metadata annotations to an XML element."""
+        sd = self.schema_root().schema_data
+        for mem in md:
+            mod, sep, name = mem.rpartition(":")
+            val = md[mem]
+            if mem == "ietf-netconf-with-defaults:default":
+                element.attrib["xmlns:wd"] = (
+                    "urn:ietf:params:xml:ns:netconf:default:1.0")
+                element.attrib["wd:default"] = str(val).lower()
+                continue
+            an = self.schema_root().annotations.get(
+                (name, mod if sep else self.ns))
+            if an is None:
+                text, prefixes = str(val), [mod] if sep else []
+            else:
+                mod = mod if sep else self.ns
+                text = an.type.to_xml(val) or ""
+                prefixes = [mod] + an.type._xml_prefixes(val)
+            for pfx in prefixes:
+                module = sd.modules_by_name.get(pfx)
+                if module:
+                    element.attrib["xmlns:" + pfx] = module.xml_namespace
+            element.attrib[f"{mod}:{name}" if mod else name] = text
+
     def clear_val_counters(self) -> None:
         """Clear receiver's validation counter."""
         self.val_count = 0
-- 
2.43.0


From 21a1980496df849ef697b4e882c0408c3e2e14a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:56 +0000
Subject: [PATCH 082/124] fix: defaults of objects that only have annotations

---
 yangson/instance.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 1d9f76a..00ff48d 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -442,7 +442,8 @@ class InstanceNode:
                 for mn in self._member_names():
                     m = res._member(mn) if res is self else res.sibling(mn)
                     res = m.add_defaults(ctype, tag=tag)
-                res = res.up()
+                if res is not self:
+                    res = res.up()
             res = self.schema_node._add_defaults(res, ctype)
             if tag and res != self:
                 self._mark_defaults(res.value)
-- 
2.43.0


From 877f1920ed7e061b1da2d2feb0e125f5346ebde6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:33 +0000
Subject: [PATCH 083/124] fix: name members of nested notifications and
 containers consistently when they are read separately

---
 yangson/schemanode.py | 23 ++++++++++++-----------
 1 file changed, 12 insertions(+), 11 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index d8adfaf..a249b0f 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -592,8 +592,7 @@ class InternalNode(SchemaNode):
                 ch = self.get_data_child(*tqn)
                 if ch is None:
                     raise RawMemberError(jptr + "/" + tgt)
-                iname = ("{1}:{0}".format(*ch.qual_name)
-                         if jptr == "" or self.ns != ch.ns else ch.name)
+                iname = self._member_name(ch, jptr)
                 npath = jptr + "/" + tgt
                 if isinstance(ch, LeafListNode) and isinstance(rval[qn], list):
                     res["@" + iname] = ArrayValue(
@@ -611,11 +610,7 @@ class InternalNode(SchemaNode):
                 npath = jptr + "/" + qn
                 if ch is None:
                     raise RawMemberError(npath)
-                if jptr == "" or self.ns != ch.ns:
-                    iname = '{1}:{0}'.format(*ch.qual_name)
-                else:
-                    iname = ch.name
-                res[iname] = ch.from_raw(rval[qn], npath)
+                res[self._member_name(ch, jptr)] = ch.from_raw(rval[qn], npath)
         return res
 
     def from_xml(self, rval: ET.Element,
@@ -653,16 +648,22 @@ class InternalNode(SchemaNode):
         if ch is None:
             raise RawMemberError(npath)
 
-        if jptr != "" and self.ns == ch.ns:
-            iname = ch.name
-        else:
-            iname = '{1}:{0}'.format(*ch.qual_name)
+        iname = self._member_name(ch, jptr)
         if isinstance(ch, SequenceNode):
             if iname not in res:
                 res[iname] = ch.from_xml(rval, npath, fqn)
         else:
             res[iname] = ch.from_xml(xmlchild, npath)
 
+    def _member_name(self, child: SchemaNode,
+                     jptr: JSONPointer) -> InstanceName:
+        """Return instance name of a child of the receiver."""
+        if jptr == "" and isinstance(child, DataNode):
+            return child.iname()
+        if jptr == "" or self.ns != child.ns:
+            return "{1}:{0}".format(*child.qual_name)
+        return child.name
+
     def _process_metadata(self, rmo: RawMetadataObject,
                           jptr: JSONPointer) -> MetadataObject:
         if not isinstance(rmo, dict):
-- 
2.43.0


From b7274c7547dc3a7691c270ec4ea1a107a19fd1e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:52 +0000
Subject: [PATCH 084/124] fix: add_defaults of RPC and action contents

---
 yangson/schemanode.py | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index a249b0f..8058eaf 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1888,6 +1888,11 @@ class InputNode(InternalNode, DataNode):
         """Override the superclass property."""
         return False
 
+    def _default_instance(self, pnode: InstanceNode, ctype: ContentType,
+                          lazy: bool = False) -> InstanceNode:
+        """Override the superclass method: no default instance."""
+        return pnode
+
     def iname(self) -> InstanceName:
         """Override the superclass method."""
         return self.ns + ":" + self.name
@@ -1911,6 +1916,11 @@ class OutputNode(InternalNode, DataNode):
         """Override the superclass property."""
         return False
 
+    def _default_instance(self, pnode: InstanceNode, ctype: ContentType,
+                          lazy: bool = False) -> InstanceNode:
+        """Override the superclass method: no default instance."""
+        return pnode
+
     def iname(self) -> InstanceName:
         """Override the superclass method."""
         return self.ns + ":" + self.name
-- 
2.43.0


From 13ef29357f5855a426518d226f0e699b29d1f87f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:31 +0000
Subject: [PATCH 085/124] fix: evaluation of when conditions failed if it used
 the content of the conditional node

---
 yangson/instance.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 00ff48d..cb25659 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -680,6 +680,8 @@ class InstanceNode:
 
     def _xpath_string(self) -> str:
         """XPath - return the receiver's string-value."""
+        if self.value == (None,):  # also a dummy node
+            return ""
         if self.is_internal():
             # the order of members may depend on how the node was reached
             order = [c.qual_name for c in self.schema_node.data_children()]
@@ -695,7 +697,8 @@ class InstanceNode:
                   qname: Union[QualName, bool] = None) -> list["InstanceNode"]:
         """XPath - return the list of receiver's children."""
         sn = self.schema_node
-        if not isinstance(sn, InternalNode):
+        if not (isinstance(sn, InternalNode) and
+                isinstance(self.value, ObjectValue)):  # dummy node is empty
             return []
         if qname:
             cn = sn.get_data_child(*qname)
-- 
2.43.0


From 9266c714885ae8416de087afc4ed2c316d8c0005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:07:48 +0000
Subject: [PATCH 086/124] fix: infinite recursion in when conditions that look
 at the children of their context node

---
 yangson/xpathast.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/yangson/xpathast.py b/yangson/xpathast.py
index 82fe619..4056f69 100644
--- a/yangson/xpathast.py
+++ b/yangson/xpathast.py
@@ -23,6 +23,7 @@ class is intended to be public:
 
 * Expr: XPath 1.0 expression with YANG 1.1 extensions.
 """
+from contextvars import ContextVar
 from math import ceil, copysign, floor, fmod, isfinite, isnan
 import re
 from typing import Optional
@@ -50,6 +51,11 @@ class XPathContext:
         return self.__class__(new_cnode, self.origin, self.position, self.size)
 
 
+_active_conditions: ContextVar[frozenset] = ContextVar(
+    "_active_conditions", default=frozenset())
+"""Conditions that are being evaluated, and their context nodes."""
+
+
 class Expr:
     """Abstract class for nodes of XPath AST."""
 
@@ -82,7 +88,16 @@ class Expr:
             XPathTypeError: If a subexpression of the receiver is of a wrong
                 type.
         """
-        return xpath_boolean(self.evaluate(node))
+        # nodes whose existence is being decided aren't taken into account
+        key = (id(self), tuple(node.path))
+        active = _active_conditions.get()
+        if key in active:
+            return False
+        token = _active_conditions.set(active | {key})
+        try:
+            return xpath_boolean(self.evaluate(node))
+        finally:
+            _active_conditions.reset(token)
 
     def _eval_float(self, xctx: XPathContext) -> float:
         return xpath_number(self._eval(xctx))
-- 
2.43.0


From 5a1d479ec05670fa42a3306443bdacade01f4095 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:04 +0000
Subject: [PATCH 087/124] fix: instance identifiers of default nodes, and
 deref() of unusable ones

---
 yangson/datatype.py | 14 ++++++++++++--
 yangson/instance.py | 10 +++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 54e22a1..a606a75 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -54,7 +54,8 @@ from typing import (Any, Callable, cast, ClassVar, Generic, Optional, Type,
 from .constraint import Intervals, Pattern
 from .exceptions import (
     InvalidArgument, ParserException, ModuleNotRegistered, UnknownPrefix,
-    InvalidLeafrefPath, MissingModuleNamespace, XPathTypeError)
+    InvalidLeafrefPath, MissingModuleNamespace, NonexistentInstance,
+    XPathTypeError, YangsonException)
 from .schemadata import SchemaContext
 from .instance import (
     EntryKeys, InstanceNode, InstanceIdParser, MemberName)
@@ -795,7 +796,16 @@ class InstanceIdentifierType(LinkType[InstanceRoute, InstanceIdentifier]):
 
     @staticmethod
     def _deref(node: InstanceNode) -> list[InstanceNode]:
-        return [node.top().goto(cast(InstanceRoute, node.value))]
+        inst = node.top()
+        try:
+            for sel in cast(InstanceRoute, node.value):
+                try:
+                    inst = sel.goto_step(inst)
+                except NonexistentInstance:     # it may be a default in use
+                    inst = sel.goto_step(inst._with_defaults())
+        except YangsonException:
+            return []
+        return [inst]
 
 
 class IdentityrefType(DataType[QualName, YangIdentifier]):
diff --git a/yangson/instance.py b/yangson/instance.py
index cb25659..f675e8b 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -719,11 +719,19 @@ class InstanceNode:
                         not cn._in_effect(self.value)):
                     return []
         res = []
-        wd = sn._add_defaults(self, ContentType.all, lazy=True)
+        wd = self._with_defaults()
         for mn in wd._member_names():
             res.extend(wd._member(mn)._node_set())
         return res
 
+    def _with_defaults(self) -> "InstanceNode":
+        """Return the receiver with members that are defaults in use."""
+        if not (isinstance(self.schema_node, InternalNode) and
+                isinstance(self.value, ObjectValue)):
+            return self
+        return self.schema_node._add_defaults(
+            self, ContentType.all, lazy=True)
+
     def _descendants(self, qname: Union[QualName, bool] = None,
                      with_self: bool = False) -> list["InstanceNode"]:
         """XPath - return the list of receiver's descendants."""
-- 
2.43.0


From f0f7c86a791e9550af95a6ab20c614e1dbe7c706 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:04 +0000
Subject: [PATCH 088/124] fix: double-quoted strings with many escape sequences
 exceeded the recursion limit

---
 yangson/statement.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index 74ebc59..cb5343b 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -22,6 +22,7 @@ This module implements the following classes:
 * ModuleParser: Recursive-descent parser for YANG modules.
 * Statement: YANG statements.
 """
+import re
 from typing import Final, Optional
 from .exceptions import (
     EndOfInput, StatementNotFound, UnexpectedInput, InvalidArgument,
@@ -180,11 +181,9 @@ class ModuleParser(Parser):
         Args:
             text: Text to unescape.
         """
-        chop = text.split("\\", 1)
         try:
-            return (chop[0] if len(chop) == 1
-                    else chop[0] + cls.unescape_map[chop[1][0]] +
-                    cls.unescape(chop[1][1:]))
+            return re.sub(r"\\(.?)", lambda mo: cls.unescape_map[mo.group(1)],
+                          text, flags=re.DOTALL)
         except KeyError:
             raise InvalidArgument(text) from None
 
-- 
2.43.0


From 2e5a716822425e7dcdc98e2dea0038ecef049bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:20 +0000
Subject: [PATCH 089/124] fix: indentation and trailing whitespace weren't
 removed from multi-line double-quoted strings

---
 yangson/statement.py | 32 ++++++++++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index cb5343b..22dfdbf 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -343,10 +343,38 @@ class ModuleParser(Parser):
             {  # state 1: after escape
                 "": lambda: 0
             }])
-        self._arg += (self.unescape(self.input[start:self.offset])
-                      if self._escape else self.input[start:self.offset])
+        text = self.input[start:self.offset]
+        if "\n" in text:
+            text = self._strip_layout(
+                text, start - 1 - self.input.rfind("\n", 0, start - 1))
+        self._arg += self.unescape(text) if self._escape else text
         self.offset += 1
 
+    @staticmethod
+    def _strip_layout(text: str, column: int) -> str:
+        """Remove indentation and trailing whitespace (RFC 7950, 6.1.3).
+
+        Args:
+            text: Contents of a multi-line double-quoted string.
+            column: Column of the opening double quote (starting from 1).
+        """
+        lines = text.split("\n")
+        res = []
+        for line in lines[:-1]:
+            cr = "\r" if line.endswith("\r") else ""
+            res.append(line[:len(line) - len(cr)].rstrip(" \t") + cr)
+        res.append(lines[-1])
+        for i in range(1, len(res)):
+            rest = res[i].lstrip(" \t")
+            width = 0
+            for j in range(len(res[i]) - len(rest)):
+                if width >= column:
+                    rest = res[i][j:]
+                    break
+                width += 8 if res[i][j] == "\t" else 1
+            res[i] = " " * (width - column) + rest
+        return "\n".join(res)
+
     def unq_argument(self) -> str:
         """Parse unquoted argument.
 
-- 
2.43.0


From 2e8aa97bef82ffe36b79e4ed6ca5499a5af95511 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:38 +0000
Subject: [PATCH 090/124] fix: parser accepted unfinished comments at the end,
 unquoted parts after '+' and '}' in unquoted arguments

---
 yangson/statement.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index 22dfdbf..76d850e 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -129,6 +129,10 @@ class ModuleParser(Parser):
                                            "\\": "\\"}
     """Dictionary for mapping escape sequences to characters."""
 
+    _tail_re = re.compile(
+        r"(?:[ \t\n]|\r\n|//[^\n]*(?:\n|\Z)|/\*(?:[^*]|\*(?!/))*\*/)*")
+    """Regular expression for separators at the end of input."""
+
     def __init__(self, text: str, name: YangIdentifier = None,
                  rev: str = "") -> None:
         """Initialize the parser instance.
@@ -155,7 +159,7 @@ class ModuleParser(Parser):
         self.opt_separator()
         start = self.offset
         res = self.statement()
-        if res.keyword not in ["module", "submodule"]:
+        if res.prefix or res.keyword not in ["module", "submodule"]:
             self.offset = start
             raise UnexpectedInput(self, "'module' or 'submodule'")
         if self.name is not None and res.argument != self.name:
@@ -164,10 +168,9 @@ class ModuleParser(Parser):
         modrev = revst.argument if revst else ""
         if self.rev != modrev:
             raise ModuleRevisionMismatch(modrev, self.rev)
-        try:
-            self.opt_separator()
-        except EndOfInput:
+        if self._tail_re.fullmatch(self.input, self.offset):
             return res
+        self.opt_separator()
         raise UnexpectedInput(self, "end of input")
 
     def _back_break(self) -> int:
@@ -271,7 +274,7 @@ class ModuleParser(Parser):
         elif not pres:
             raise UnexpectedInput(self, "separator")
         else:
-            self._arg = ""
+            self._arg = None
             sub = self.argument()
             arg = self._arg
         self.offset += 1
@@ -294,7 +297,7 @@ class ModuleParser(Parser):
         elif next == '"':
             quoted = True
             self.dq_argument()
-        elif self._arg == "":
+        elif self._arg is None:
             quoted = False
             self.unq_argument()
         else:
@@ -320,7 +323,7 @@ class ModuleParser(Parser):
             EndOfInput: If past the end of input.
         """
         self.offset += 1
-        self._arg += self.up_to("'")
+        self._arg = (self._arg or "") + self.up_to("'")
 
     def dq_argument(self) -> str:
         """Parse double-quoted argument.
@@ -347,7 +350,8 @@ class ModuleParser(Parser):
         if "\n" in text:
             text = self._strip_layout(
                 text, start - 1 - self.input.rfind("\n", 0, start - 1))
-        self._arg += self.unescape(text) if self._escape else text
+        self._arg = (self._arg or "") + (
+            self.unescape(text) if self._escape else text)
         self.offset += 1
 
     @staticmethod
@@ -391,6 +395,7 @@ class ModuleParser(Parser):
                 "\r": lambda: -1,
                 "\n": lambda: -1,
                 "{": lambda: -1,
+                "}": lambda: -1,
                 '/': lambda: 1
             },
             {  # state 1: comment?
@@ -401,6 +406,7 @@ class ModuleParser(Parser):
                 "\r": lambda: -1,
                 "\n": lambda: -1,
                 "{": lambda: -1,
+                "}": lambda: -1,
                 "/": self._back_break,
                 "*": self._back_break
             }])
-- 
2.43.0


From e977ac2923090a0e6f87c25873e80af4a0946879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:54:55 +0000
Subject: [PATCH 091/124] fix: arguments consisting of many concatenated parts
 exceeded the recursion limit

---
 yangson/statement.py | 45 ++++++++++++++++++++++----------------------
 1 file changed, 22 insertions(+), 23 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index 76d850e..b3e6cb9 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -290,31 +290,30 @@ class ModuleParser(Parser):
 
         Return ``True`` if the argument is followed by block of substatements.
         """
-        next = self.peek()
-        if next == "'":
-            quoted = True
-            self.sq_argument()
-        elif next == '"':
-            quoted = True
-            self.dq_argument()
-        elif self._arg is None:
-            quoted = False
-            self.unq_argument()
-        else:
-            raise UnexpectedInput(self, "single or double quote")
-        self.opt_separator()
-        next = self.peek()
-        if next == ";":
-            return False
-        if next == "{":
-            return True
-        elif quoted and next == "+":
+        while True:
+            next = self.peek()
+            if next == "'":
+                quoted = True
+                self.sq_argument()
+            elif next == '"':
+                quoted = True
+                self.dq_argument()
+            elif self._arg is None:
+                quoted = False
+                self.unq_argument()
+            else:
+                raise UnexpectedInput(self, "single or double quote")
+            self.opt_separator()
+            next = self.peek()
+            if next == ";":
+                return False
+            if next == "{":
+                return True
+            if not quoted or next != "+":
+                raise UnexpectedInput(self, "';', '{'" +
+                                      (" or '+'" if quoted else ""))
             self.offset += 1
             self.opt_separator()
-            return self.argument()
-        else:
-            raise UnexpectedInput(self, "';', '{'" +
-                                  (" or '+'" if quoted else ""))
 
     def sq_argument(self) -> str:
         """Parse single-quoted argument.
-- 
2.43.0


From 23a0403dab25faa91ce69f39497d1ced6f0a4d65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:12 +0000
Subject: [PATCH 092/124] fix: schema digest removed identities from the data
 model and listed them in random order

---
 yangson/datatype.py   | 2 +-
 yangson/schemadata.py | 5 +++--
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index a606a75..ebcdf09 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -892,7 +892,7 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
     def _type_digest(self, config: bool) -> dict[str, Any]:
         res = super()._type_digest(config)
         if config:
-            res["identities"] = list(
+            res["identities"] = sorted(
                 self.sctx.schema_data.derived_from_all(self.bases))
         return res
 
diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 11607cb..1aa0a8f 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -473,10 +473,11 @@ class SchemaData:
     def derived_from(self, identity: QualName) -> MutableSet[QualName]:
         """Return list of identities transitively derived from `identity`."""
         try:
-            res = self.identity_adjs[identity].derivs
+            derivs = self.identity_adjs[identity].derivs
         except KeyError:
             return set()
-        for id in res.copy():
+        res = set(derivs)
+        for id in derivs:
             res |= self.derived_from(id)
         return res
 
-- 
2.43.0


From 5ba7ce9949846da2605e5d4b981a57e272395a9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:29 +0000
Subject: [PATCH 093/124] fix: using nodes inside anydata failed with
 AttributeError

---
 yangson/instance.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index f675e8b..228ab77 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -134,7 +134,8 @@ class InstanceNode:
     def __str__(self) -> str:
         """Return string representation of the receiver's value."""
         sn = self.schema_node
-        if isinstance(self.value, StructuredValue):
+        if (isinstance(self.value, StructuredValue) or
+                isinstance(sn, AnyContentNode)):
             return str(self.value)
         else:
             res = sn.type.canonical_string(self.value)
@@ -672,6 +673,8 @@ class InstanceNode:
         return self.peek(irt)
 
     def _member_schema_node(self, name: InstanceName) -> "DataNode":
+        if not self.is_internal():
+            raise InstanceValueError(self, "value without schema")
         qname = self.schema_node._iname2qname(name)
         res = self.schema_node.get_data_child(*qname)
         if res is None:
@@ -1045,7 +1048,7 @@ class ArrayEntry(InstanceNode):
             if isinstance(sn, LeafListNode):
                 sel = EntryValue(str(self))
                 texts = [sel.value]
-            elif sn.keys:
+            elif isinstance(sn, ListNode) and sn.keys:
                 kdict = {}
                 for k in sn.keys:
                     if k[1] == sn.ns:
-- 
2.43.0


From e5d6feb9a0816fad7585568a5835a4e450be44f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:46 +0000
Subject: [PATCH 094/124] fix: member '@' inside anydata was taken for cooked
 annotations

---
 yangson/instance.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 228ab77..c8ffca8 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -489,7 +489,7 @@ class InstanceNode:
                 continue
 
             if (m[0] != '@' and isinstance(self.value[m], ObjectValue)
-                    and '@' in self.value[m]):
+                    and '@' in self.value[m] and self[m].is_internal()):
                 attr[m] = self.value[m]['@']
             elif m[0] == '@':
                 attr[m[1:]] = self.value[m]
-- 
2.43.0


From c50a0a49458af43aa5b4e7234e161a2ed841de83 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:06 +0000
Subject: [PATCH 095/124] fix: very long numbers in instance identifiers raised
 ValueError

---
 yangson/parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/yangson/parser.py b/yangson/parser.py
index 0ed610b..077c50b 100644
--- a/yangson/parser.py
+++ b/yangson/parser.py
@@ -203,7 +203,11 @@ class Parser:
 
     def unsigned_integer(self) -> int:
         """Parse and return an unsigned integer."""
-        return int(self.match_regex(self.uint_re, True, "unsigned integer"))
+        text = self.match_regex(self.uint_re, True, "unsigned integer")
+        try:
+            return int(text)
+        except ValueError:      # too many digits
+            raise UnexpectedInput(self, "smaller integer") from None
 
     def unsigned_float(self) -> float:
         """Parse and return unsigned floating-point number."""
-- 
2.43.0


From 4937775924a71ab3435794def4153bed7f4d2bb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:26 +0000
Subject: [PATCH 096/124] fix: from_xml failed with UnboundLocalError for a
 subschema that isn't an operation or notification

---
 yangson/datamodel.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index ee02701..132cd0c 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -149,6 +149,9 @@ class DataModel:
                 raise NonexistentSchemaNode(self.schema.qual_name, loc, p)
             if isinstance(subsn, SchemaTreeNode):
                 schema = subsn
+            else:
+                raise BadSchemaNodeType(subsn.qual_name,
+                                        "notification or rpc")
         else:
             schema = self.schema
         cooked = cast(ObjectValue, schema.from_xml(root))
-- 
2.43.0


From acccd9929a22d7daf3061ee67f862f7eb33e2e69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:56:47 +0000
Subject: [PATCH 097/124] fix: error paths didn't say which entry of a keyless
 list is wrong

---
 yangson/schemanode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 8058eaf..2a245ee 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1344,7 +1344,7 @@ class SequenceNode(DataNode):
         res = ArrayValue()
         idx = 0
         for i in range(len(rval)):
-            if isinstance(self, ListNode):
+            if isinstance(self, ListNode) and self.keys:
                 try:
                     keys = [str(rval[i].get(k[0], '<missing>'))
                             for k in self.keys]
-- 
2.43.0


From f32bb49c74142860e40f4a9c5520c9b20cd779dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:07 +0000
Subject: [PATCH 098/124] fix: errors in XML lists were reported with paths
 that don't exist

---
 yangson/schemanode.py | 11 +----------
 1 file changed, 1 insertion(+), 10 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 2a245ee..08c3519 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -1360,20 +1360,11 @@ class SequenceNode(DataNode):
     def from_xml(self, rval: ET.Element, jptr: JSONPointer = "",
                  tagname: str = None, isroot: bool = False) -> ArrayValue:
         res = ArrayValue()
-        idx = 0
         if isroot:
             return self._process_xmlarray_child(res, rval, None, jptr)
         else:
             for xmlchild in rval:
-                if isinstance(self, ListNode):
-                    keys = [str(xmlchild.findtext(
-                        k[0], default='<missing>')) for k in self.keys]
-                    element = "=" + ",".join(keys)
-                else:
-                    element = "/" + str(idx)
-                self._process_xmlarray_child(
-                    res, xmlchild, tagname, jptr + element)
-                idx = idx + 1
+                self._process_xmlarray_child(res, xmlchild, tagname, jptr)
         return res
 
     def _process_xmlarray_child(
-- 
2.43.0


From bda5b9a186859d31155c73a30f3ee2eb627ee05c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:27 +0000
Subject: [PATCH 099/124] fix: from_xml failed with TypeError for top-level
 elements without a namespace

---
 yangson/schemanode.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 08c3519..c4e7cdf 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -633,6 +633,8 @@ class InternalNode(SchemaNode):
                 raise MissingModuleNamespace(xmlns)
             ns = nsmap[xmlns].yang_id[0]
             fqn = ns + ':' + name
+        elif self.ns is None:
+            raise RawMemberError(jptr + "/" + xmlchild.tag)
         else:
             name = xmlchild.tag
             ns = self.ns
-- 
2.43.0


From 854ffb89e764d74ed8c93659120b2dbddf38b313 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:57:45 +0000
Subject: [PATCH 100/124] fix: deref() of anydata failed with AttributeError

---
 yangson/instance.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index c8ffca8..71dfda6 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -768,8 +768,8 @@ class InstanceNode:
 
     def _deref(self) -> list["InstanceNode"]:
         """XPath: return the list of nodes that the receiver refers to."""
-        return ([] if self.is_internal() else
-                self.schema_node.type._deref(self))
+        return (self.schema_node.type._deref(self)
+                if isinstance(self.schema_node, TerminalNode) else [])
 
 
 class RootNode(InstanceNode):
-- 
2.43.0


From e59784d07aa066f2f71efdbd5407c9294cfe6797 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:05 +0000
Subject: [PATCH 101/124] fix: attribute axis failed with KeyError, and axis
 names with underscores were accepted

---
 yangson/xpathparser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/yangson/xpathparser.py b/yangson/xpathparser.py
index e3a9d75..a739371 100644
--- a/yangson/xpathparser.py
+++ b/yangson/xpathparser.py
@@ -306,12 +306,14 @@ class XPathParser(Parser):
             next = self.peek()
             if next == ":":
                 self.adv_skip_ws()
+                if yid in ("attribute", "following",
+                           "namespace", "preceding"):
+                    raise NotSupported(self, f"axis '{yid}::'")
+                if "_" in yid:
+                    raise InvalidXPath(self)
                 try:
                     axis = Axis[yid.replace("-", "_")]
                 except KeyError:
-                    if yid in ("attribute", "following",
-                               "namespace", "preceding"):
-                        raise NotSupported(self, f"axis '{yid}::'") from None
                     raise InvalidXPath(self) from None
                 return axis, self._qname()
             if ws:
-- 
2.43.0


From 3d1eaedfb7febc7c2b1b3295ed3ac0fc6bf64198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:21 +0000
Subject: [PATCH 102/124] fix: data models made from malformed YANG library
 data failed with internal errors

---
 yangson/schemadata.py | 46 ++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 45 insertions(+), 1 deletion(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 1aa0a8f..199dfaf 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -26,7 +26,7 @@ This module implements the following classes:
 * FeatureExprParser: Parser for if-feature expressions.
 """
 import re
-from collections.abc import MutableSet
+from collections.abc import Callable, MutableSet
 from typing import Any, Optional, Sequence
 from .exceptions import (
     InvalidSchemaPath, BadYangLibraryData, CyclicImports, DefinitionNotFound,
@@ -128,6 +128,7 @@ class SchemaData:
             ModuleNotFound: If a YANG module wasn't found in any of the
                 directories specified in `mod_path`.
         """
+        self._check_library(yang_lib)
         try:
             for item in yang_lib["ietf-yang-library:modules-state"]["module"]:
                 name = item["name"]
@@ -172,6 +173,49 @@ class SchemaData:
         self._process_imports()
         self._check_feature_dependences()
 
+    @staticmethod
+    def _check_library(yang_lib: dict[str, Any]) -> None:
+        """Check the types of values in YANG library data.
+
+        Args:
+            yang_lib: Dictionary with YANG library data.
+
+        Raises:
+            BadYangLibraryData: If YANG library data is invalid.
+        """
+        def check(obj: Any, name: str, test: Callable[[Any], bool],
+                  required: bool = True) -> Any:
+            if not isinstance(obj, dict):
+                raise BadYangLibraryData("expected object")
+            if name not in obj:
+                if required:
+                    raise BadYangLibraryData(f"missing '{name}'")
+                return []
+            if not test(obj[name]):
+                raise BadYangLibraryData(f"invalid '{name}'")
+            return obj[name]
+
+        def regex(pat: str) -> Callable[[Any], bool]:
+            return lambda x: (isinstance(x, str) and
+                              re.fullmatch(pat, x) is not None)
+
+        def module(obj: Any) -> None:
+            check(obj, "name", regex("[A-Za-z_][A-Za-z0-9_.-]*"))
+            check(obj, "revision", regex(r"([0-9]{4}-[0-9]{2}-[0-9]{2})?"))
+            check(obj, "namespace", lambda x: isinstance(x, str), False)
+
+        mstate = check(yang_lib, "ietf-yang-library:modules-state",
+                       lambda x: isinstance(x, dict))
+        check(mstate, "module-set-id", lambda x: isinstance(x, str))
+        for item in check(mstate, "module", lambda x: isinstance(x, list)):
+            module(item)
+            check(item, "conformance-type", regex("implement|import"))
+            check(item, "feature", lambda x: isinstance(x, list) and
+                  all(isinstance(f, str) for f in x), False)
+            for sub in check(item, "submodule",
+                             lambda x: isinstance(x, list), False):
+                module(sub)
+
     def _load_module(self, name: YangIdentifier,
                      rev: RevisionDate, mdata: ModuleData) -> Statement:
         """Read and parse a YANG module or submodule."""
-- 
2.43.0


From 1c1e22342c432a306fcf1883a89b2062b2e01259 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:32 +0000
Subject: [PATCH 103/124] fix: schema patterns of operations made on first use
 could be used by another thread before they were complete

---
 yangson/schemanode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index c4e7cdf..e33103a 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -744,10 +744,10 @@ class InternalNode(SchemaNode):
 
     def _make_schema_patterns(self) -> None:
         """Build schema pattern for the receiver and its data descendants."""
-        self.schema_pattern = self._schema_pattern()
         for dc in self.data_children():
             if isinstance(dc, InternalNode):
                 dc._make_schema_patterns()
+        self.schema_pattern = self._schema_pattern()
 
     def _schema_pattern(self) -> SchemaPattern:
         todo = [c for c in self.children if not (
-- 
2.43.0


From e841460b6234fdfd63a60afb6a63b65c508ff0e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:38:51 +0000
Subject: [PATCH 104/124] fix: error tags and messages of type errors could
 come from another thread's failure

---
 yangson/datatype.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index ebcdf09..a9298b1 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -48,8 +48,10 @@ import base64
 import decimal
 import xml.etree.ElementTree as ET
 import re
+import threading
 from typing import (Any, Callable, cast, ClassVar, Generic, Optional, Type,
                     TYPE_CHECKING)
+import weakref
 
 from .constraint import Intervals, Pattern
 from .exceptions import (
@@ -69,10 +71,20 @@ if TYPE_CHECKING:
     from .schemanode import TerminalNode
 
 
+class _ErrorInfo(threading.local):
+    """Error tags and messages of types, separate for every thread."""
+
+    def __init__(self) -> None:
+        """Initialize the class instance."""
+        self.info: weakref.WeakKeyDictionary[
+            "DataType", tuple[str, str]] = weakref.WeakKeyDictionary()
+
+
 class DataType(ABC, Generic[S, RS]):
     """Abstract class for YANG data types."""
 
     dtypes: ClassVar[dict[str, Type["DataType"]]]
+    _errors: ClassVar[_ErrorInfo] = _ErrorInfo()
     _option_template = '<option value="{}"{}>{}</option>'
 
     def __init__(self, sctx: SchemaContext, name: Optional[YangIdentifier]) -> None:
@@ -81,10 +93,18 @@ class DataType(ABC, Generic[S, RS]):
         self.default: Optional[S] = None
         self._default_spec: Optional[tuple[str, SchemaContext]] = None
         self.name = name
-        self.error_tag: Optional[str] = None
-        self.error_message: Optional[str] = None
         self.units: Optional[str] = None
 
+    @property
+    def error_tag(self) -> Optional[str]:
+        """Error tag of the most recent failure in the current thread."""
+        return self._errors.info.get(self, (None, None))[0]
+
+    @property
+    def error_message(self) -> Optional[str]:
+        """Error message of the most recent failure in the current thread."""
+        return self._errors.info.get(self, (None, None))[1]
+
     @abstractmethod
     def __contains__(self, val: S) -> bool:
         """Return ``True`` if the receiver type contains `val`.
@@ -181,9 +201,9 @@ class DataType(ABC, Generic[S, RS]):
 
     def _set_error_info(self, error_tag: Optional[str] = None,
                         error_message: Optional[str] = None):
-        self.error_tag = error_tag if error_tag else "invalid-type"
-        self.error_message = (error_message if error_message else
-                              "expected " + str(self))
+        self._errors.info[self] = (
+            error_tag if error_tag else "invalid-type",
+            error_message if error_message else "expected " + str(self))
 
     def _post_process(self, tnode: "TerminalNode") -> None:
         """Post-process the receiver type on behalf of a terminal node.
-- 
2.43.0


From 8cecdfed01278c7fee4f986a4fcd140526136311 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:08 +0000
Subject: [PATCH 105/124] fix: error tag and message of a value that cannot be
 printed were those of an earlier failure

---
 yangson/instance.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/yangson/instance.py b/yangson/instance.py
index 71dfda6..67dd996 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -140,6 +140,7 @@ class InstanceNode:
         else:
             res = sn.type.canonical_string(self.value)
             if res is None:
+                self.value in sn.type     # sets the error information
                 raise YangTypeError(self, sn.type.error_tag,
                                     sn.type.error_message)
             return res
-- 
2.43.0


From bd0786df658afd7fe29cd1226aa91159d5214f69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:27 +0000
Subject: [PATCH 106/124] fix: order of modules, and so the schema tree and
 digest, depended on hash values

---
 yangson/schemadata.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 199dfaf..319ca50 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -240,7 +240,8 @@ class SchemaData:
         raise ModuleNotFound(name, rev)
 
     def _process_imports(self) -> None:
-        impl = set(self.implement.items())
+        # sorted so that the result doesn't depend on hash values
+        impl = sorted(self.implement.items())
         if len(impl) == 0:
             return
         deps = {mid: set() for mid in impl}
@@ -268,8 +269,8 @@ class SchemaData:
         while free:
             nid = free.pop()
             self._module_sequence.append(nid)
-            self._module_sequence.extend(self.modules[nid].submodules)
-            for mid in impby[nid]:
+            self._module_sequence.extend(sorted(self.modules[nid].submodules))
+            for mid in sorted(impby[nid]):
                 deps[mid].remove(nid)
                 if len(deps[mid]) == 0:
                     free.append(mid)
-- 
2.43.0


From ad21dc1571a36b5465472ef18997fc13dfdd6552 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:39:43 +0000
Subject: [PATCH 107/124] fix: augments of nodes that a later augment adds were
 ignored

---
 yangson/datamodel.py  | 10 ++++++++--
 yangson/schemanode.py | 13 +++++++++----
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index 132cd0c..60b9a55 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -234,12 +234,18 @@ class DataModel:
                 self.schema_data, self.schema_data.namespace(mid), mid)
             self.schema._handle_substatements(
                 self.schema_data.modules[mid].statement, sctx)
+        augments = []
         for mid in self.schema_data._module_sequence:
             sctx = SchemaContext(
                 self.schema_data, self.schema_data.namespace(mid), mid)
             mod = self.schema_data.modules[mid].statement
-            for aug in mod.find_all("augment"):
-                self.schema._augment_stmt(aug, sctx)
+            augments.extend((aug, sctx) for aug in mod.find_all("augment"))
+        while augments:     # targets may be added by other augments
+            rest = [(aug, sctx) for (aug, sctx) in augments
+                    if not self.schema._augment_stmt(aug, sctx)]
+            if len(rest) == len(augments):
+                break
+            augments = rest
         for mid in self.schema_data._module_sequence:
             sctx = SchemaContext(
                 self.schema_data, self.schema_data.namespace(mid), mid)
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index e33103a..2864ec0 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -802,19 +802,24 @@ class InternalNode(SchemaNode):
         node._handle_substatements(stmt, sctx)
 
     def _augment_stmt(self, stmt: Statement,
-                      sctx: SchemaContext) -> None:
-        """Handle **augment** statement."""
+                      sctx: SchemaContext) -> bool:
+        """Handle **augment** statement.
+
+        Returns:
+            ``False`` if the target of the augment doesn't exist.
+        """
         if not sctx.schema_data.if_features(stmt, sctx.text_mid):
-            return
+            return True
         target = self.get_schema_descendant(
             sctx.schema_data.sni2route(stmt.argument, sctx))
         if target is None:      # silently ignore missing target
-            return
+            return False
         if stmt.find1("when"):
             gr = GroupNode()
             target._add_child(gr)
             target = gr
         target._handle_substatements(stmt, sctx)
+        return True
 
     def _deviation_stmt(self, stmt: Statement,
                         sctx: SchemaContext) -> None:
-- 
2.43.0


From 14875744fbdad5ce21e5a55d6be0cde7b573fb0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:08 +0000
Subject: [PATCH 108/124] fix: modules whose revisions aren't in reverse
 chronological order were not found

---
 yangson/statement.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index b3e6cb9..c556256 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -164,8 +164,8 @@ class ModuleParser(Parser):
             raise UnexpectedInput(self, "'module' or 'submodule'")
         if self.name is not None and res.argument != self.name:
             raise ModuleNameMismatch(res.argument, self.name)
-        revst = res.find1("revision")
-        modrev = revst.argument if revst else ""
+        modrev = max([r.argument for r in res.find_all("revision")],
+                     default="")
         if self.rev != modrev:
             raise ModuleRevisionMismatch(modrev, self.rev)
         if self._tail_re.fullmatch(self.input, self.offset):
-- 
2.43.0


From 91724a45446a8e1f05dccb30ff1c5bef7c940e9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:27 +0000
Subject: [PATCH 109/124] fix: derivation of identities through identities of
 import-only modules was ignored

---
 yangson/datamodel.py | 10 ++++++++++
 yangson/datatype.py  |  9 ++++++++-
 2 files changed, 18 insertions(+), 1 deletion(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index 60b9a55..4b76a17 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -234,6 +234,16 @@ class DataModel:
                 self.schema_data, self.schema_data.namespace(mid), mid)
             self.schema._handle_substatements(
                 self.schema_data.modules[mid].statement, sctx)
+        # identities of import-only modules aren't valid as values but other
+        # identities can be derived from them
+        for mid in sorted(self.schema_data.modules):
+            ns = self.schema_data.namespace(mid)
+            if ns in self.schema_data.implement:
+                continue
+            sctx = SchemaContext(self.schema_data, ns, mid)
+            mod = self.schema_data.modules[mid].statement
+            for ist in mod.find_all("identity"):
+                self.schema._identity_stmt(ist, sctx)
         augments = []
         for mid in self.schema_data._module_sequence:
             sctx = SchemaContext(
diff --git a/yangson/datatype.py b/yangson/datatype.py
index a9298b1..19b7bf7 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -846,6 +846,11 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
                     error_message=f"'{self.canonical_string(val)}'" +
                     f" not derived from '{self.canonical_string(b)}'")
                 return False
+        if val[1] not in self.sctx.schema_data.implement:
+            self._set_error_info(
+                error_message=f"module of '{self.canonical_string(val)}'" +
+                " not implemented")
+            return False
         return True
 
     def from_raw(self, raw: YangIdentifier) -> Optional[QualName]:
@@ -912,8 +917,10 @@ class IdentityrefType(DataType[QualName, YangIdentifier]):
     def _type_digest(self, config: bool) -> dict[str, Any]:
         res = super()._type_digest(config)
         if config:
+            sd = self.sctx.schema_data
             res["identities"] = sorted(
-                self.sctx.schema_data.derived_from_all(self.bases))
+                [id for id in sd.derived_from_all(self.bases)
+                 if id[1] in sd.implement])
         return res
 
 
-- 
2.43.0


From cfda502f97798c442748a24df4120fed52999c52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:45 +0000
Subject: [PATCH 110/124] fix: some syntax errors in if-feature raised
 exceptions other than InvalidFeatureExpression

---
 yangson/schemadata.py | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 319ca50..1d1100f 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -30,9 +30,10 @@ from collections.abc import Callable, MutableSet
 from typing import Any, Optional, Sequence
 from .exceptions import (
     InvalidSchemaPath, BadYangLibraryData, CyclicImports, DefinitionNotFound,
-    FeaturePrerequisiteError, InvalidFeatureExpression, ModuleNotFound,
-    ModuleNotImplemented, ModuleNotImported, ModuleNotRegistered,
-    ModuleContentMismatch, MultipleImplementedRevisions, UnknownPrefix)
+    EndOfInput, FeaturePrerequisiteError, InvalidFeatureExpression,
+    ModuleNotFound, ModuleNotImplemented, ModuleNotImported,
+    ModuleNotRegistered, ModuleContentMismatch, MultipleImplementedRevisions,
+    UnexpectedInput, UnknownPrefix)
 from .parser import Parser
 from .statement import ModuleParser, Statement
 from .typealiases import (ModuleId, PrefName, QualName, RevisionDate,
@@ -590,9 +591,12 @@ class FeatureExprParser(Parser):
                 syntactically correct.
             UnknownPrefix: If a prefix of a feature name is not declared.
         """
-        self.skip_ws()
-        res = self._feature_disj()
-        self.skip_ws()
+        try:
+            self.skip_ws()
+            res = self._feature_disj()
+            self.skip_ws()
+        except (EndOfInput, UnexpectedInput):
+            raise InvalidFeatureExpression(self) from None
         if not self.at_end():
             raise InvalidFeatureExpression(self)
         return res
-- 
2.43.0


From a9dffb9498f3d01b80eff1f94b55b6c1076cb0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:02 +0000
Subject: [PATCH 111/124] fix: imports were not resolved if no module is
 implemented

---
 yangson/schemadata.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/yangson/schemadata.py b/yangson/schemadata.py
index 1d1100f..1fe399d 100644
--- a/yangson/schemadata.py
+++ b/yangson/schemadata.py
@@ -243,8 +243,6 @@ class SchemaData:
     def _process_imports(self) -> None:
         # sorted so that the result doesn't depend on hash values
         impl = sorted(self.implement.items())
-        if len(impl) == 0:
-            return
         deps = {mid: set() for mid in impl}
         impby = {mid: set() for mid in impl}
         for mid in self.modules:
@@ -264,6 +262,8 @@ class SchemaData:
                 if mm in impl and imid in impl:
                     deps[mm].add(imid)
                     impby[imid].add(mm)
+        if len(impl) == 0:
+            return
         free = [mid for mid in deps if len(deps[mid]) == 0]
         if not free:
             raise CyclicImports()
-- 
2.43.0


From 6c14fa998f5f500f93901774fadf488a8a78a22c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:21 +0000
Subject: [PATCH 112/124] fix: command-line tool ended with a traceback for
 many broken inputs, and with status 0 if pickling failed

---
 yangson/__main__.py | 44 ++++++++++++++++++++++++++++++--------------
 1 file changed, 30 insertions(+), 14 deletions(-)

diff --git a/yangson/__main__.py b/yangson/__main__.py
index 89d0a90..9af86ad 100644
--- a/yangson/__main__.py
+++ b/yangson/__main__.py
@@ -27,10 +27,10 @@ from typing import Optional
 from yangson import DataModel
 from yangson.enumerations import ContentType, ValidationScope
 from yangson.exceptions import (
-    BadYangLibraryData, FeaturePrerequisiteError, InvalidArgument,
-    MultipleImplementedRevisions, ModuleNotFound, ModuleNotRegistered,
-    NonexistentSchemaNode, RawMemberError, RawTypeError,
-    SchemaError, SemanticError, YangTypeError)
+    BadSchemaNodeType, BadYangLibraryData, FeaturePrerequisiteError,
+    InvalidArgument, MultipleImplementedRevisions, ModuleNotFound,
+    ModuleNotRegistered, NonexistentSchemaNode, RawMemberError, RawTypeError,
+    SchemaError, SemanticError, YangsonException, YangTypeError)
 from yangson.typealiases import PrefName
 
 
@@ -127,15 +127,17 @@ def main(infile: Optional[str] = None, pickled: bool = False,
         try:
             with open(infile, "rb") as pif:
                 dm = pickle.load(pif)
-        except (FileNotFoundError, pickle.UnpicklingError) as e:
+        except Exception as e:  # unpickling may raise almost anything
             print("Pickle file:", str(e), file=sys.stderr)
             return 1
+        if not isinstance(dm, DataModel):
+            print("Pickle file: not a data model", file=sys.stderr)
+            return 1
     else:
         try:
             with open(infile, encoding="utf-8") as ylf:
                 yl = ylf.read()
-        except (FileNotFoundError, PermissionError, UnicodeDecodeError,
-                json.decoder.JSONDecodeError) as e:
+        except (OSError, UnicodeDecodeError) as e:
             print("YANG library:", str(e), file=sys.stderr)
             return 1
         sp = path if path else os.environ.get("YANG_MODPATH", ".")
@@ -157,6 +159,10 @@ def main(infile: Optional[str] = None, pickled: bool = False,
         except ModuleNotRegistered as e:
             print("Module not registered:", str(e), file=sys.stderr)
             return 2
+        except Exception as e:  # invalid modules may cause any exception
+            print("Invalid data model:", type(e).__name__, str(e),
+                  file=sys.stderr)
+            return 2
     if set_id:
         print(dm.module_set_id())
         return 0
@@ -167,19 +173,19 @@ def main(infile: Optional[str] = None, pickled: bool = False,
         print(dm.schema_digest())
         return 0
     if dump:
-        with open(dump, "wb") as pif:
-            try:
+        try:
+            with open(dump, "wb") as pif:
                 pickle.dump(dm, pif, pickle.HIGHEST_PROTOCOL)
-                return 0
-            except pickle.PicklingError as e:
-                print("Pickling failed:", str(e), file=sys.stderr)
+            return 0
+        except (OSError, pickle.PicklingError, RecursionError) as e:
+            print("Pickling failed:", str(e), file=sys.stderr)
+            return 1
     if not validate:
         return 0
     try:
         with open(validate, encoding="utf-8") as instf:
             itxt = json.load(instf)
-    except (FileNotFoundError, PermissionError, UnicodeDecodeError,
-            json.decoder.JSONDecodeError) as e:
+    except (OSError, ValueError, RecursionError) as e:
         print("Instance data:", str(e), file=sys.stderr)
         return 1
     try:
@@ -197,6 +203,13 @@ def main(infile: Optional[str] = None, pickled: bool = False,
     except NonexistentSchemaNode:
         print("Subschema", subschema, "not found", file=sys.stderr)
         return 3
+    except BadSchemaNodeType:
+        print("Subschema", subschema, "isn't an RPC or notification",
+              file=sys.stderr)
+        return 3
+    except YangsonException as e:
+        print("Invalid instance data:", str(e), file=sys.stderr)
+        return 3
     try:
         i.validate(scope, ctype)
     except SchemaError as e:
@@ -208,6 +221,9 @@ def main(infile: Optional[str] = None, pickled: bool = False,
     except YangTypeError as e:
         print("Invalid type:", str(e), file=sys.stderr)
         return 3
+    except YangsonException as e:
+        print("Validation failed:", str(e), file=sys.stderr)
+        return 3
     return 0
 
 
-- 
2.43.0


From 966e63b6353ea472a3ccce70aebd5338d2a9906a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:41 +0000
Subject: [PATCH 113/124] fix: YANG library data with too long numbers or too
 deep nesting failed with internal errors

---
 yangson/datamodel.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/datamodel.py b/yangson/datamodel.py
index 4b76a17..9831228 100644
--- a/yangson/datamodel.py
+++ b/yangson/datamodel.py
@@ -81,7 +81,7 @@ class DataModel:
         """
         try:
             self.yang_library = json.loads(yltxt)
-        except json.JSONDecodeError as e:
+        except (ValueError, RecursionError) as e:
             raise BadYangLibraryData(str(e)) from None
         self.schema_data = SchemaData(self.yang_library, mod_path)
         self.schema = SchemaTreeNode(self.schema_data)
-- 
2.43.0


From 890f3ce080b22cbbb6304c43c1699b8df5674a73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:44 +0000
Subject: [PATCH 114/124] fix: circular type definitions caused an endless loop

---
 yangson/datatype.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/yangson/datatype.py b/yangson/datatype.py
index 19b7bf7..e227083 100644
--- a/yangson/datatype.py
+++ b/yangson/datatype.py
@@ -232,6 +232,8 @@ class DataType(ABC, Generic[S, RS]):
         sc = sctx
         while True:
             tdef, sc = sctx.schema_data.get_definition(ts, sc)
+            if any(tdef is d for d, _, _ in tchain):    # circular definition
+                raise InvalidArgument(stmt.argument)
             ts = cast(Statement, tdef.find1("type", required=True))
             tchain.append((tdef, ts, sc))
             if ts.argument in cls.dtypes:
-- 
2.43.0


From cf826eb97a8e75b27046df5cf4d183c5f8536516 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:44 +0000
Subject: [PATCH 115/124] fix: revision statements without an argument failed
 with an internal error

---
 yangson/statement.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/yangson/statement.py b/yangson/statement.py
index c556256..25414d1 100644
--- a/yangson/statement.py
+++ b/yangson/statement.py
@@ -164,7 +164,7 @@ class ModuleParser(Parser):
             raise UnexpectedInput(self, "'module' or 'submodule'")
         if self.name is not None and res.argument != self.name:
             raise ModuleNameMismatch(res.argument, self.name)
-        modrev = max([r.argument for r in res.find_all("revision")],
+        modrev = max([r.argument or "" for r in res.find_all("revision")],
                      default="")
         if self.rev != modrev:
             raise ModuleRevisionMismatch(modrev, self.rev)
-- 
2.43.0


From 589a8d2a7505acf53027c39ca4fa53ed5c9ff400 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:13 +0000
Subject: [PATCH 116/124] fix: convert8525 failed for libraries with deviations

---
 yangson/convert8525.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/yangson/convert8525.py b/yangson/convert8525.py
index e94a86c..e2c95e7 100644
--- a/yangson/convert8525.py
+++ b/yangson/convert8525.py
@@ -123,8 +123,15 @@ class ModuleData:
 
 class MainModuleData(ModuleData):
 
-    def __init__(self, val: ObjectValue, import_only: bool) -> None:
-        """Initialize the receiver."""
+    def __init__(self, val: ObjectValue, import_only: bool,
+                 revisions: dict[str, str] = {}) -> None:
+        """Initialize the receiver.
+
+        Args:
+            val: Entry of the module list.
+            import_only: ``True`` if the module is import-only.
+            revisions: Revisions of modules in the same module set.
+        """
         super().__init__(val)
         self.import_only = import_only
         self.namespace: str = val["namespace"].strip()
@@ -134,14 +141,8 @@ class MainModuleData(ModuleData):
                 self.add_submodule(s)
         self.feature: list[str] = val.get("feature", [])
         self.deviation: list[tuple[str, str]] = []
-        if "deviation" in val:
-            for dev in val["deviation"]:
-                dmod = dev._deref()[0]
-                try:
-                    rev = dmod.sibling("revision").value
-                except NonexistentInstance:
-                    rev = ""
-                self.deviation.append((dmod.value, rev))
+        for dev in val.get("deviation", []):
+            self.deviation.append((dev, revisions[dev]))
 
     def add_submodule(self, sub_entry: ObjectValue):
         """Add submodule defined in an RFC 8525 submodule entry."""
@@ -225,8 +226,11 @@ def main() -> int:
     for ms in msets:
         msentry = top["module-set"].look_up(name=ms.value)
         if "module" in msentry:
+            revs = {yam["name"]: yam.get("revision", "")
+                    for yam in msentry["module"].value}
             for yam in msentry["module"]:
-                ment = MainModuleData(yam.value, import_only=False)
+                ment = MainModuleData(
+                    yam.value, import_only=False, revisions=revs)
                 modules[ment.key()] = ment
         if "import-only-module" in msentry:
             for yam in msentry["import-only-module"]:
-- 
2.43.0


From 3abddd2444eea22dfef7faa20105b5054340ccc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:30 +0000
Subject: [PATCH 117/124] fix: convert8525 let import-only entries override
 implemented modules

---
 yangson/convert8525.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/yangson/convert8525.py b/yangson/convert8525.py
index e2c95e7..3eb7a37 100644
--- a/yangson/convert8525.py
+++ b/yangson/convert8525.py
@@ -235,7 +235,8 @@ def main() -> int:
         if "import-only-module" in msentry:
             for yam in msentry["import-only-module"]:
                 ment = MainModuleData(yam.value, import_only=True)
-                modules[ment.key()] = ment
+                # may be implemented according to another module set
+                modules.setdefault(ment.key(), ment)
     dm7895 = DataModel(YL7895, sp.split(":"))
     res = dm7895.from_raw(
         {"ietf-yang-library:modules-state":
-- 
2.43.0


From 458517ffeac77aa99a5feb365c2db176c2be4913 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:50 +0000
Subject: [PATCH 118/124] fix: convert8525 ended with a traceback for many
 kinds of invalid input or output files

---
 yangson/convert8525.py | 32 +++++++++++++++++++-------------
 1 file changed, 19 insertions(+), 13 deletions(-)

diff --git a/yangson/convert8525.py b/yangson/convert8525.py
index 3eb7a37..4f529be 100644
--- a/yangson/convert8525.py
+++ b/yangson/convert8525.py
@@ -29,8 +29,7 @@ import sys
 from typing import cast, Optional
 from yangson import DataModel
 from yangson.enumerations import ContentType
-from yangson.exceptions import (
-    NonexistentInstance, ValidationError, RawDataError)
+from yangson.exceptions import NonexistentInstance, YangsonException
 from yangson.instvalue import ObjectValue
 from yangson.typealiases import RawObject
 
@@ -198,17 +197,22 @@ def main() -> int:
     datastore: str = args.datastore
     schema: Optional[str] = args.schema
     sp = path if path else os.environ.get("YANG_MODPATH", ".")
-    dm8525 = DataModel(YL8525, sp.split(":"))
     try:
-        with open(fn8525) as infile:
+        dm8525 = DataModel(YL8525, tuple(sp.split(":")))
+        dm7895 = DataModel(YL7895, tuple(sp.split(":")))
+    except YangsonException as e:
+        print("YANG modules not available:", type(e).__name__, str(e),
+              file=sys.stderr)
+        return 1
+    try:
+        with open(fn8525, encoding="utf-8") as infile:
             ri = json.load(infile)
         inst = dm8525.from_raw(ri)
         inst.validate(ctype=ContentType.nonconfig)
-    except (FileNotFoundError, PermissionError, json.decoder.JSONDecodeError,
-            RawDataError, ValidationError) as e:
+        top = inst["ietf-yang-library:yang-library"]
+    except (OSError, ValueError, RecursionError, YangsonException) as e:
         print("Invalid input data:", str(e), file=sys.stderr)
         return 1
-    top = inst["ietf-yang-library:yang-library"]
     if schema is None:
         try:
             schema = cast(str, top["datastore"].look_up(
@@ -237,7 +241,6 @@ def main() -> int:
                 ment = MainModuleData(yam.value, import_only=True)
                 # may be implemented according to another module set
                 modules.setdefault(ment.key(), ment)
-    dm7895 = DataModel(YL7895, sp.split(":"))
     res = dm7895.from_raw(
         {"ietf-yang-library:modules-state":
          {"module-set-id": cast(str, top["content-id"].value)}})
@@ -245,14 +248,17 @@ def main() -> int:
     res = rtop.put_member(
         "module", [modules[m].as_raw() for m in modules], raw=True).top()
     res.validate(ctype=ContentType.nonconfig)
+    text = json.dumps(res.raw_value(), indent=2) + "\n"
     try:
-        outf = open(fn7895, mode="w") if args.output else sys.stdout
-    except FileNotFoundError as e:
+        if fn7895 is None:
+            sys.stdout.write(text)
+            sys.stdout.flush()
+        else:
+            with open(fn7895, mode="w") as outf:
+                outf.write(text)
+    except OSError as e:
         print(e, file=sys.stderr)
         return 3
-    json.dump(res.raw_value(), outf, indent=2)
-    outf.write("\n")
-    outf.close()
     return 0
 
 
-- 
2.43.0


From 4f83a9249ef694964ded3f1ebb43567684852792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:10 +0000
Subject: [PATCH 119/124] fix: mkylib.py took modules that define data nodes
 for import-only ones and extensions for YANG statements

---
 tools/python/mkylib.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/tools/python/mkylib.py b/tools/python/mkylib.py
index bc7caf4..9e74266 100644
--- a/tools/python/mkylib.py
+++ b/tools/python/mkylib.py
@@ -16,7 +16,7 @@ from yangson.statement import ModuleParser
 
 ydir = sys.argv[1]
 """Name of the directory with YANG (sub)modules."""
-data_kws = ["augment", "container", "leaf", "leaf-list", "list", "rpc", "notification", "identity", "deviation"]
+data_kws = ["augment", "container", "leaf", "leaf-list", "list", "choice", "anydata", "anyxml", "uses", "rpc", "notification", "identity", "deviation"]
 """Keywords of statements that contribute nodes to the schema tree."""
 modmap = {}
 """Dictionary for collecting module data."""
@@ -41,8 +41,10 @@ def module_entry(yfile):
     includes = []
     rec = {}
     for sst in mst.substatements:
-        if not rev and sst.keyword == "revision":
-            rev = sst.argument
+        if sst.prefix:          # extension
+            continue
+        if sst.keyword == "revision":
+            rev = max(rev, sst.argument)
         elif import_only and sst.keyword in data_kws:
             import_only = False
         elif sst.keyword == "feature":
@@ -90,7 +92,7 @@ def main():
             else:
                 print(f"Submodule {subm} revision mismatch.", file=sys.stderr)
                 return 1
-            imp_only = imp_only or srec["import-only"]
+            imp_only = imp_only and srec["import-only"]
             fts += srec["features"]
             sarr.append(sen)
         if fts:
-- 
2.43.0


From 7b8539b040e05f6ba782e3805b76cb822021da3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:31:27 +0000
Subject: [PATCH 120/124] fix: tagging defaults changed annotations of other
 instances, and leaf-list entries were tagged as a single node

---
 yangson/instance.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 67dd996..143bfc5 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -472,14 +472,14 @@ class InstanceNode:
             return
         for key, value in list(objvalue.items()):
             if key not in self.value:
+                metadata = {'ietf-netconf-with-defaults:default': True}
                 if isinstance(value, ObjectValue):
-                    metadata = objvalue[key].get('@', {})
-                    metadata['ietf-netconf-with-defaults:default'] = True
                     objvalue[key]['@'] = metadata
                 else:
-                    metadata = objvalue.get('@'+key, {})
-                    metadata['ietf-netconf-with-defaults:default'] = True
-                    objvalue['@'+key] = metadata
+                    # the member may have had a value with annotations
+                    objvalue['@'+key] = (
+                        [dict(metadata) for _ in value]
+                        if isinstance(value, ArrayValue) else metadata)
 
     def _get_attributes(self) -> dict:
         # collect attributes
-- 
2.43.0


From 61037ddcf6ae84ed892501d374129164bafae38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:57 +0000
Subject: [PATCH 121/124] fix: status statements of groupings and augments
 changed the status of the parent or target node

---
 yangson/schemanode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 2864ec0..2ff3003 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -305,6 +305,8 @@ class SchemaNode:
                               sctx: SchemaContext) -> None:
         """Dispatch actions for substatements of `stmt`."""
         for s in stmt.substatements:
+            if s.keyword == "status" and stmt.keyword == "grouping":
+                continue    # this is not the status of the receiver
             if s.prefix:
                 key = (sctx.schema_data.modules[
                     sctx.text_mid].prefix_map[s.prefix][0]
@@ -814,7 +816,7 @@ class InternalNode(SchemaNode):
             sctx.schema_data.sni2route(stmt.argument, sctx))
         if target is None:      # silently ignore missing target
             return False
-        if stmt.find1("when"):
+        if stmt.find1("when") or stmt.find1("status"):
             gr = GroupNode()
             target._add_child(gr)
             target = gr
-- 
2.43.0


From 47ebf4c7e81d2643eebf6a13efd3175341ccc1b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:34:19 +0000
Subject: [PATCH 122/124] fix: defaults and cases of obsolete nodes were still
 in use

---
 yangson/instance.py   | 7 ++++---
 yangson/schemanode.py | 6 +++++-
 2 files changed, 9 insertions(+), 4 deletions(-)

diff --git a/yangson/instance.py b/yangson/instance.py
index 143bfc5..d462355 100644
--- a/yangson/instance.py
+++ b/yangson/instance.py
@@ -37,7 +37,7 @@ from datetime import datetime
 from typing import Mapping, Optional, TYPE_CHECKING, Union
 from urllib.parse import unquote
 import xml.etree.ElementTree as ET
-from .enumerations import ContentType, ValidationScope
+from .enumerations import ContentType, NodeStatus, ValidationScope
 from .exceptions import (BadSchemaNodeType, EndOfInput, InstanceException,
                          InstanceValueError, InvalidKeyValue,
                          MissingModuleNamespace, NonexistentInstance,
@@ -714,14 +714,15 @@ class InstanceNode:
             wd = cn._default_instance(self, ContentType.all, lazy=True)
             if iname not in wd.value:
                 return []
-            while True:
+            while cn._status != NodeStatus.obsolete:
                 cn = cn.parent
                 if cn is sn:
                     return wd._member(iname)._node_set()
                 if (cn.when and not cn.when.holds(self) or
                         isinstance(cn, CaseNode) and
                         not cn._in_effect(self.value)):
-                    return []
+                    break
+            return []
         res = []
         wd = self._with_defaults()
         for mn in wd._member_names():
diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 2ff3003..1bc5b15 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -563,6 +563,7 @@ class InternalNode(SchemaNode):
             ctype = self.content_type()
         return [c for c in self.children if
                 not isinstance(c, (RpcActionNode, NotificationNode)) and
+                c._status != NodeStatus.obsolete and
                 c.content_type().value & ctype.value != 0]
 
     def data_children(self) -> list["DataNode"]:
@@ -1565,7 +1566,8 @@ class ChoiceNode(InternalNode):
         if ec is None:
             return inst
         while n is not self:
-            if n.when and not n.when.holds(inst):
+            if (n._status == NodeStatus.obsolete or
+                    n.when and not n.when.holds(inst)):
                 return inst
             n = n.parent
         return ec._add_defaults(inst, ctype)
@@ -1601,6 +1603,8 @@ class ChoiceNode(InternalNode):
         """Return the list of schema patterns of all cases under `node`."""
         res = []
         for c in node.children:
+            if c._status == NodeStatus.obsolete:
+                continue
             if isinstance(c, GroupNode):    # cases from a conditional augment
                 res.extend(
                     [ConditionalPattern(p, c.when) if c.when else p
-- 
2.43.0


From c176eb1427490c5ae8ee7541cd830ed0312a99b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:26:58 +0000
Subject: [PATCH 123/124] fix: hello2yanglib.xsl failed to strip whitespace
 around capability URIs

---
 tools/xslt/hello2yanglib.xsl | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/tools/xslt/hello2yanglib.xsl b/tools/xslt/hello2yanglib.xsl
index bb45a8a..9279a23 100644
--- a/tools/xslt/hello2yanglib.xsl
+++ b/tools/xslt/hello2yanglib.xsl
@@ -95,12 +95,13 @@ Limitations:
 
   <template match="nc:capability">
     <element name="yl:module">
-      <variable name="pars" select="substring-after(., '?')"/>
+      <variable name="uri" select="normalize-space(.)"/>
+      <variable name="pars" select="substring-after($uri, '?')"/>
       <call-template name="uri-parameters">
 	<with-param name="text" select="$pars"/>
       </call-template>
       <element name="yl:namespace">
-	<value-of select="substring-before(., '?')"/>
+	<value-of select="substring-before($uri, '?')"/>
       </element>
       <if test="not(contains($pars, 'revision='))">
 	<element name="yl:revision"/>
-- 
2.43.0


From c664fe9e4025fae8c343801b3e5a6a11d871c454 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:27:16 +0000
Subject: [PATCH 124/124] fix: extension statements inside deviate were applied
 as YANG statements of the same name

---
 yangson/schemanode.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/yangson/schemanode.py b/yangson/schemanode.py
index 1bc5b15..ac96061 100644
--- a/yangson/schemanode.py
+++ b/yangson/schemanode.py
@@ -239,13 +239,10 @@ class SchemaNode:
             self.delete()
         else:
             for subst in stmt.substatements:
-                try:
-                    method = getattr(self, "_deviate_" +
-                                     subst.keyword.replace("-", "_", 1))
-                except AttributeError as error:
-                    if subst.prefix:  # ignore unsupported extension
-                        continue
-                    raise error from None
+                if subst.prefix:      # ignore unsupported extension
+                    continue
+                method = getattr(self, "_deviate_" +
+                                 subst.keyword.replace("-", "_", 1))
                 method(subst, sctx, action=arg)
 
     def _get_description(self, stmt: Statement):
-- 
2.43.0

