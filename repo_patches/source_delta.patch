From e7165ebfe1dfcebe49274e47b417ffb6618c8b10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 01/85] fix: integer division of long values must not go
 through floating point

---
 titus/lib/core.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/lib/core.py b/titus/lib/core.py
index f1c0c2c..8ab8e33 100644
--- a/titus/lib/core.py
+++ b/titus/lib/core.py
@@ -99,7 +99,8 @@ class FloorDivide(LibFcn):
         if y == 0:
             raise PFARuntimeException("integer division by zero", self.errcodeBase + 0, self.name, pos)
         else:
-            return int(x / float(y))
+            out = abs(x) // abs(y)
+            return out if (x < 0) == (y < 0) else -out
 provide(FloorDivide())
 
 class Negative(LibFcn):
-- 
2.43.0


From 9a17b529f67baa5f41f0540e473b5241787169bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 02/85] fix: integer powers of long values must be exact

---
 titus/lib/core.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/titus/lib/core.py b/titus/lib/core.py
index 8ab8e33..f9b614d 100644
--- a/titus/lib/core.py
+++ b/titus/lib/core.py
@@ -200,14 +200,18 @@ class Pow(LibFcn):
     sig = Sig([{"x": P.Wildcard("A", anyNumber)}, {"y": P.Wildcard("A")}], P.Wildcard("A"))
     errcodeBase = 18080
     def __call__(self, state, scope, pos, paramTypes, x, y):
-        out = powLikeJava(x, y)
+        if paramTypes[-1] in ("int", "long") and y >= 0:
+            # exact integer power (anything larger than this overflows in any case)
+            out = x**y if abs(x) < 2 or y < 64 else float("inf")
+        else:
+            out = powLikeJava(x, y)
         if paramTypes[-1] == "int":
-            if math.isnan(out) or out < INT_MIN_VALUE or out > INT_MAX_VALUE:
+            if out != out or out < INT_MIN_VALUE or out > INT_MAX_VALUE:
                 raise PFARuntimeException("int overflow", self.errcodeBase + 0, self.name, pos)
             else:
                 return int(out)
         elif paramTypes[-1] == "long":
-            if math.isnan(out) or out < LONG_MIN_VALUE or out > LONG_MAX_VALUE:
+            if out != out or out < LONG_MIN_VALUE or out > LONG_MAX_VALUE:
                 raise PFARuntimeException("long overflow", self.errcodeBase + 1, self.name, pos)
             else:
                 return int(out)
-- 
2.43.0


From d470c0cf2f9d1e328ea91a42703ee95314e57139 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:24:36 +0000
Subject: [PATCH 03/85] fix: m.exp, m.expm1, m.sinh, m.cosh overflow to
 infinity like the other m.* functions

---
 titus/lib/pfamath.py | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/titus/lib/pfamath.py b/titus/lib/pfamath.py
index b9e051d..5a2b74c 100644
--- a/titus/lib/pfamath.py
+++ b/titus/lib/pfamath.py
@@ -146,30 +146,33 @@ class CosH(LibFcn):
     name = prefix + "cosh"
     sig = Sig([{"x": P.Double()}], P.Double())
     errcodeBase = 27100
-    def genpy(self, paramTypes, args, pos):
-        return "math.cosh({0})".format(*args)
     def __call__(self, state, scope, pos, paramTypes, x):
-        return math.cosh(x)
+        try:
+            return math.cosh(x)
+        except OverflowError:
+            return float("inf")
 provide(CosH())
 
 class Exp(LibFcn):
     name = prefix + "exp"
     sig = Sig([{"x": P.Double()}], P.Double())
     errcodeBase = 27110
-    def genpy(self, paramTypes, args, pos):
-        return "math.exp({0})".format(*args)
     def __call__(self, state, scope, pos, paramTypes, x):
-        return math.exp(x)
+        try:
+            return math.exp(x)
+        except OverflowError:
+            return float("inf")
 provide(Exp())
 
 class ExpM1(LibFcn):
     name = prefix + "expm1"
     sig = Sig([{"x": P.Double()}], P.Double())
     errcodeBase = 27120
-    def genpy(self, paramTypes, args, pos):
-        return "(math.exp({0}) - 1.0)".format(*args)
     def __call__(self, state, scope, pos, paramTypes, x):
-        return math.exp(x) - 1.0
+        try:
+            return math.exp(x) - 1.0
+        except OverflowError:
+            return float("inf")
 provide(ExpM1())
 
 class Floor(LibFcn):
@@ -322,10 +325,11 @@ class SinH(LibFcn):
     name = prefix + "sinh"
     sig = Sig([{"x": P.Double()}], P.Double())
     errcodeBase = 27230
-    def genpy(self, paramTypes, args, pos):
-        return "math.sinh({0})".format(*args)
     def __call__(self, state, scope, pos, paramTypes, x):
-        return math.sinh(x)
+        try:
+            return math.sinh(x)
+        except OverflowError:
+            return float("inf") if x > 0 else float("-inf")
 provide(SinH())
 
 class Sqrt(LibFcn):
-- 
2.43.0


From d12be2607c2a8e5954b003d098877531b67fae8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:29 +0000
Subject: [PATCH 04/85] fix: median and ntile compare type names by identity

---
 titus/lib/array.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/lib/array.py b/titus/lib/array.py
index d98ae0e..7747f8b 100644
--- a/titus/lib/array.py
+++ b/titus/lib/array.py
@@ -760,7 +760,7 @@ class Median(LibFcn):
 
         if len(sa) % 2:
             return sa[half]
-        if (dataType is "float") or (dataType is "double"):
+        if (dataType == "float") or (dataType == "double"):
             return (sa[half - 1] + sa[half])/2.0
         else:
             return sa[half - 1]
@@ -807,7 +807,7 @@ class NTile(LibFcn):
         k = (len(a) - 1.0)*p
         f = math.floor(k)
         dataType = paramTypes[-1]
-        if (dataType is "float") or (dataType is "double"):
+        if (dataType == "float") or (dataType == "double"):
             c = math.ceil(k)
             if f == c:
                 return sa[int(k)]
-- 
2.43.0


From 2139e082c1ab5280d0b24372f057802d4147a538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 05/85] fix: map.zipmap and map.zipmapWithKey compare key sets,
 not insertion order

---
 titus/lib/map.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/lib/map.py b/titus/lib/map.py
index ce02b54..f77303e 100644
--- a/titus/lib/map.py
+++ b/titus/lib/map.py
@@ -504,7 +504,7 @@ class ZipMap(LibFcn):
         maps = args[:-1]
         keys = list(maps[0].keys())
         for m in maps:
-            if keys != list(m.keys()):
+            if set(keys) != set(m.keys()):
                 raise PFARuntimeException("misaligned maps", self.errcodeBase + 0, self.name, pos)
         out = {}
         for k in keys:
@@ -523,7 +523,7 @@ class ZipMapWithKey(LibFcn):
         maps = args[:-1]
         keys = list(maps[0].keys())
         for m in maps:
-            if keys != list(m.keys()):
+            if set(keys) != set(m.keys()):
                 raise PFARuntimeException("misaligned maps", self.errcodeBase + 0, self.name, pos)
         out = {}
         for k in keys:
-- 
2.43.0


From 48ad8d07ddc3c9c9b060863069eb021b7f6f2eb1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:31 +0000
Subject: [PATCH 06/85] fix: a.geomean of a negative product is nan, not a
 complex number

---
 titus/lib/array.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/titus/lib/array.py b/titus/lib/array.py
index 7747f8b..07ed519 100644
--- a/titus/lib/array.py
+++ b/titus/lib/array.py
@@ -744,7 +744,10 @@ class GeoMean(LibFcn):
         if len(a) == 0:
             return float("nan")
         else:
-            return reduce(lambda a, b: a * b, a, 1.0)**(1.0/len(a))
+            product = reduce(lambda a, b: a * b, a, 1.0)
+            if product < 0.0 and len(a) > 1:
+                return float("nan")
+            return product**(1.0/len(a))
 provide(GeoMean())
 
 class Median(LibFcn):
-- 
2.43.0


From d42596931a916d1e84175074686b32b94d4d8994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:23 +0000
Subject: [PATCH 07/85] fix: callbacks with the wrong number of parameters do
 not match a function pattern

---
 titus/signature.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/signature.py b/titus/signature.py
index 41f62e0..a5595c3 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -517,7 +517,8 @@ class Sig(Signature):
                     return False
 
         elif isinstance(pat, P.Fcn) and isinstance(arg, FcnType):
-            return all(self.check(p, a, labelData, strict, True) for p, a in zip(pat.params, arg.params)) and \
+            return len(pat.params) == len(arg.params) and \
+                   all(self.check(p, a, labelData, strict, True) for p, a in zip(pat.params, arg.params)) and \
                    self.check(pat.ret, arg.ret, labelData, strict, False)
 
         elif isinstance(pat, P.Wildcard):
-- 
2.43.0


From 703669aef6354e9e6818ac1a4515f9ddbeea352c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:23 +0000
Subject: [PATCH 08/85] fix: invalid symbol and function names are reported as
 syntax errors

---
 titus/reader.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/titus/reader.py b/titus/reader.py
index 881e38a..56e15b5 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -724,13 +724,13 @@ def _readArgument(data, dot, avroTypeBuilder):
                     _callArgs = [_readArgument(data[key], dot + " -> " + key, avroTypeBuilder)]
 
         if "foreach" in keys and not validSymbolName(_foreach):
-            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data["foreach"]), pos(dot, at))
         if "forkey" in keys and not validSymbolName(_forkey):
-            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data["forkey"]), pos(dot, at))
         if "forval" in keys and not validSymbolName(_forval):
-            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid symbol name".format(data["forval"]), pos(dot, at))
         if "fcn" in keys and not validFunctionName(_fcnref):
-            raise PFASyntaxException("\"{0}\" is not a valid function name".format(data[keys]), pos(dot, at))
+            raise PFASyntaxException("\"{0}\" is not a valid function name".format(data["fcn"]), pos(dot, at))
 
         if keys == set(["int"]):                             return LiteralInt(_int, pos(dot, at))
         elif keys == set(["long"]):                          return LiteralLong(_long, pos(dot, at))
-- 
2.43.0


From a8449bd1c0b2d8b792c1ad927bde74d43bbfa926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:23 +0000
Subject: [PATCH 09/85] fix: references to polymorphic library functions are
 semantic errors

---
 titus/P.py      | 6 ++++--
 titus/pfaast.py | 1 +
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/titus/P.py b/titus/P.py
index 5e534aa..747e105 100644
--- a/titus/P.py
+++ b/titus/P.py
@@ -358,9 +358,11 @@ def toType(pat):
     elif isinstance(pat, Record):
         return AvroRecord([AvroField(k, toType(v)) for k, v in list(pat.fields.items())])
 
-    elif isinstance(pat, Fcn): return FcnType([toType(x) for x in pat.params()], toType(pat.ret()))
+    elif isinstance(pat, Fcn): return FcnType([toType(x) for x in pat.params], toType(pat.ret))
 
-    else: raise Exception
+    else:
+        from titus.signature import IncompatibleTypes
+        raise IncompatibleTypes("pattern does not correspond to a single type: " + repr(pat))
 
 def fromType(t, memo=None):
     """Convert a type to a pattern.
diff --git a/titus/pfaast.py b/titus/pfaast.py
index f3159b1..102d7c1 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -62,6 +62,7 @@ from titus.fcn import Fcn
 from titus.signature import IncompatibleTypes
 from titus.signature import LabelData
 from titus.signature import Sig
+from titus.signature import Sigs
 from titus.signature import PFAVersion
 from titus.datatype import *
 import titus.options
-- 
2.43.0


From a425e06da94b2298a600ead75e2c97b7ffac3189 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:57 +0000
Subject: [PATCH 10/85] fix: round doubles in cast.int, cast.long and m.round
 without losing precision (x + 0.5 rounds up odd integers above 2^52 and the
 double just below 0.5)

---
 titus/lib/cast.py    | 8 ++++++--
 titus/lib/pfamath.py | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/titus/lib/cast.py b/titus/lib/cast.py
index 5910d7d..119e5e8 100644
--- a/titus/lib/cast.py
+++ b/titus/lib/cast.py
@@ -102,7 +102,9 @@ class ToInt(LibFcn):
                 if math.isnan(x):
                     raise OverflowError
                 else:
-                    out = int(math.floor(x + 0.5))
+                    out = int(math.floor(x))
+                    if x - out >= 0.5:      # adding 0.5 to x directly could round up
+                        out += 1
             else:
                 out = x
             if INT_MIN_VALUE <= out <= INT_MAX_VALUE:
@@ -126,7 +128,9 @@ class ToLong(LibFcn):
                 if math.isnan(x):
                     raise OverflowError
                 else:
-                    out = int(math.floor(x + 0.5))
+                    out = int(math.floor(x))
+                    if x - out >= 0.5:      # adding 0.5 to x directly could round up
+                        out += 1
             else:
                 out = x
             if LONG_MIN_VALUE <= out <= LONG_MAX_VALUE:
diff --git a/titus/lib/pfamath.py b/titus/lib/pfamath.py
index 5a2b74c..8b103d1 100644
--- a/titus/lib/pfamath.py
+++ b/titus/lib/pfamath.py
@@ -272,7 +272,9 @@ class Round(LibFcn):
         if math.isinf(x) or math.isnan(x):
             out = x
         else:
-            out = math.floor(x + 0.5)
+            out = math.floor(x)
+            if x - out >= 0.5:      # adding 0.5 to x directly could round up
+                out += 1
         return int(checkForOverflow(paramTypes[-1], out, self.errcodeBase + 0, self.errcodeBase + 1, self.name, pos))
 provide(Round())
 
-- 
2.43.0


From 5c391ca6cb8442868ced8caed22c44bfe5f76ec9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:34 +0000
Subject: [PATCH 11/85] fix: jsonEncoder accepts bytes objects (what checkData
 produces for bytes and fixed) and encodes a tagged union value with the type
 its tag names

---
 titus/datatype.py | 17 +++++++++--------
 1 file changed, 9 insertions(+), 8 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 34f3989..87ddf69 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -25,7 +25,7 @@ import avro.schema
 
 import titus.errors
 import titus.util
-from titus.util import ts, stringToBytes
+from titus.util import ts, stringToBytes, bytesToString
 
 ######################################################### the most general types
 
@@ -977,11 +977,11 @@ def jsonEncoder(avroType, value, tagged=True):
         return float(value)
     elif isinstance(avroType, AvroDouble) and isinstance(value, (int, float)) and value is not True and value is not False:
         return float(value)
-    elif isinstance(avroType, AvroBytes) and isinstance(value, str):
-        return value
-    elif isinstance(avroType, AvroFixed) and isinstance(value, str):
+    elif isinstance(avroType, AvroBytes) and isinstance(value, (str, bytes)):
+        return bytesToString(value) if isinstance(value, bytes) else value
+    elif isinstance(avroType, AvroFixed) and isinstance(value, (str, bytes)):
         if len(value) == avroType.size:
-            return value
+            return bytesToString(value) if isinstance(value, bytes) else value
     elif isinstance(avroType, AvroString) and isinstance(value, str):
         return value
     elif isinstance(avroType, AvroEnum) and isinstance(value, str) and value in avroType.symbols:
@@ -998,14 +998,15 @@ def jsonEncoder(avroType, value, tagged=True):
             elif field.default is not None:
                 pass
             else:
-                raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
+                raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=str), ts(avroType)))
         return out
     elif isinstance(avroType, AvroUnion) and any(isinstance(t, AvroNull) for t in avroType.types) and value is None:
         return None
     elif isinstance(avroType, AvroUnion):
         if isinstance(value, dict) and len(value) == 1:
+            tag, = list(value.keys())
             val, = list(value.values())
-            for t in avroType.types:
+            for t in sorted(avroType.types, key=lambda t: t.name != tag):   # the tag names the type
                 try:
                     out = jsonEncoder(t, val, tagged)
                 except titus.errors.AvroException:
@@ -1025,7 +1026,7 @@ def jsonEncoder(avroType, value, tagged=True):
                     return {t.name: out}
                 else:
                     return out
-    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value), ts(avroType)))
+    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=str), ts(avroType)))
 
 def compare(avroType, x, y):
     """Returns -1, 0, or 1 depending on whether x is less than, equal to, or greater than y, according to the schema.
-- 
2.43.0


From 1bc6ccd25e2a2728f8a47c22b426ed4b4b713bba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:21:59 +0000
Subject: [PATCH 12/85] fix: cast.avro and map.toset serialize bytes, fixed and
 nested unions

---
 titus/datatype.py | 26 ++++++++++++++++++++++++++
 titus/lib/cast.py |  5 +++--
 titus/lib/map.py  |  2 +-
 3 files changed, 30 insertions(+), 3 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 87ddf69..d8c3c0c 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1028,6 +1028,32 @@ def jsonEncoder(avroType, value, tagged=True):
                     return out
     raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=str), ts(avroType)))
 
+def avroEncoder(avroType, value):
+    """Convert a PFAEngine value into the form that the avro library serializes: unions are bare values, bytes and fixed are ``bytes``.
+
+    :type avroType: titus.datatype.AvroType
+    :param avroType: type of this object
+    :type value: dicts, lists, strings, numbers, ``True``, ``False``, ``None``
+    :param value: an object as used by the PFAEngine
+    :rtype: dicts, lists, strings, bytes, numbers, ``True``, ``False``, ``None``
+    :return: an object ready for ``avro.io.DatumWriter``
+    """
+
+    if isinstance(avroType, (AvroBytes, AvroFixed)) and isinstance(value, str):
+        return stringToBytes(value)
+    elif isinstance(avroType, AvroArray):
+        return [avroEncoder(avroType.items, x) for x in value]
+    elif isinstance(avroType, AvroMap):
+        return dict((k, avroEncoder(avroType.values, v)) for k, v in value.items())
+    elif isinstance(avroType, AvroRecord):
+        return dict((field.name, avroEncoder(field.avroType, value[field.name])) for field in avroType.fields)
+    elif isinstance(avroType, AvroUnion) and isinstance(value, dict) and len(value) == 1:
+        (tag, val), = value.items()
+        for t in avroType.types:
+            if t.name == tag:
+                return avroEncoder(t, val)
+    return value
+
 def compare(avroType, x, y):
     """Returns -1, 0, or 1 depending on whether x is less than, equal to, or greater than y, according to the schema.
 
diff --git a/titus/lib/cast.py b/titus/lib/cast.py
index 119e5e8..6c2310a 100644
--- a/titus/lib/cast.py
+++ b/titus/lib/cast.py
@@ -24,7 +24,7 @@ import json
 import avro.schema
 from avro.io import BinaryEncoder, DatumWriter
 
-from titus.util import untagUnion, bytesToString
+from titus.util import bytesToString
 from titus.datatype import schemaToAvroType
 from titus.datatype import jsonNodeToAvroType
 from titus.fcn import Fcn
@@ -41,6 +41,7 @@ from titus.lib.core import FLOAT_MIN_VALUE
 from titus.lib.core import FLOAT_MAX_VALUE
 from titus.lib.core import DOUBLE_MIN_VALUE
 from titus.lib.core import DOUBLE_MAX_VALUE
+from titus.datatype import avroEncoder
 from titus.datatype import jsonEncoder
 import titus.P as P
 
@@ -279,7 +280,7 @@ class CastAvro(LibFcn):
     errcodeBase = 17110
     def __call__(self, state, scope, pos, paramTypes, x):
         schema = avro.schema.Parse(json.dumps(paramTypes[0]))
-        x = untagUnion(x, paramTypes[0])
+        x = avroEncoder(jsonNodeToAvroType(paramTypes[0]), x)
         bytes_io = io.BytesIO()
         writer = DatumWriter(schema)
         writer.write(x, BinaryEncoder(bytes_io))
diff --git a/titus/lib/map.py b/titus/lib/map.py
index f77303e..b642d28 100644
--- a/titus/lib/map.py
+++ b/titus/lib/map.py
@@ -41,7 +41,7 @@ prefix = "map."
 
 class ObjKey(object):
     def toKey(self, x, avroType):
-        x = jsonEncoder(avroType, x, False)
+        x = avroEncoder(avroType, x)
         bytes = io.BytesIO()
         writer = DatumWriter(avroType.schema)
         writer.write(x, BinaryEncoder(bytes))
-- 
2.43.0


From 8abe7f5ca17ee47e1db2849e8ac4d6659647d943 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:31 +0000
Subject: [PATCH 13/85] fix: bytes.is* accept bytes values held as strings,
 bytes.fromBase64 reports malformed base64 as a PFA error

---
 titus/lib/bytes.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/titus/lib/bytes.py b/titus/lib/bytes.py
index 92799e8..8879855 100644
--- a/titus/lib/bytes.py
+++ b/titus/lib/bytes.py
@@ -18,6 +18,7 @@
 # limitations under the License.
 
 import base64
+import binascii
 import codecs
 import re
 
@@ -83,6 +84,8 @@ class Tester(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, x):
         if paramTypes[0] == "bytes" or paramTypes[0] == {"type": "bytes"}:
             try:
+                if isinstance(x, str):
+                    x = stringToBytes(x)
                 codecs.decode(x, self.codec, "strict")
             except UnicodeDecodeError:
                 return False
@@ -247,10 +250,10 @@ class FromBase64(LibFcn):
     errcodeBase = 16220
     def __call__(self, state, scope, pos, paramTypes, s):
         try:
-            if re.match("^[A-Za-z0-9\+/]*=*$", s) is None:
+            if re.match("^[A-Za-z0-9\\+/]*=*\\Z", s) is None:
                 raise TypeError
             out = base64.b64decode(s)
             return bytesToString(out)
-        except TypeError:
+        except (TypeError, binascii.Error):
             raise PFARuntimeException("invalid base64", self.errcodeBase + 0, self.name, pos)
 provide(FromBase64())
-- 
2.43.0


From f033fb0e54a1e399c4ab3d0e132c52e597877bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:32 +0000
Subject: [PATCH 14/85] fix: parse.* reject numbers with underscores

---
 titus/lib/parse.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/titus/lib/parse.py b/titus/lib/parse.py
index 84dac0b..03df6ed 100644
--- a/titus/lib/parse.py
+++ b/titus/lib/parse.py
@@ -51,6 +51,8 @@ class ParseInt(LibFcn):
         if base < 2 or base > 36:
             raise PFARuntimeException("base out of range", self.errcodeBase + 1, self.name, pos)
         try:
+            if "_" in str:      # digit separators are Python syntax
+                raise ValueError
             out = int(str, base)
         except ValueError:
             raise PFARuntimeException("not an integer", self.errcodeBase + 0, self.name, pos)
@@ -68,6 +70,8 @@ class ParseLong(LibFcn):
         if base < 2 or base > 36:
             raise PFARuntimeException("base out of range", self.errcodeBase + 1, self.name, pos)
         try:
+            if "_" in str:      # digit separators are Python syntax
+                raise ValueError
             out = int(str, base)
         except ValueError:
             raise PFARuntimeException("not a long integer", self.errcodeBase + 0, self.name, pos)
@@ -83,6 +87,8 @@ class ParseFloat(LibFcn):
     errcodeBase = 33020
     def __call__(self, state, scope, pos, paramTypes, str):
         try:
+            if "_" in str:      # digit separators are Python syntax
+                raise ValueError
             out = float(str)
         except ValueError:
             raise PFARuntimeException("not a single-precision float", self.errcodeBase + 0, self.name, pos)
@@ -106,6 +112,8 @@ class ParseDouble(LibFcn):
     errcodeBase = 33030
     def __call__(self, state, scope, pos, paramTypes, str):
         try:
+            if "_" in str:      # digit separators are Python syntax
+                raise ValueError
             out = float(str)
         except ValueError:
             raise PFARuntimeException("not a double-precision float", self.errcodeBase + 0, self.name, pos)
-- 
2.43.0


From 4eacd3d00af4aff825f6183a7254285f02eb2469 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:32 +0000
Subject: [PATCH 15/85] fix: impute.errorOnNull and defaultOnNull return a map
 or record argument that is not in a union unchanged

---
 titus/lib/impute.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/lib/impute.py b/titus/lib/impute.py
index 99acfca..8389820 100644
--- a/titus/lib/impute.py
+++ b/titus/lib/impute.py
@@ -44,7 +44,7 @@ class ErrorOnNull(LibFcn):
             if isinstance(paramTypes[-1], (list, tuple)):
                 return x
             else:
-                if isinstance(x, dict):
+                if isinstance(x, dict) and isinstance(paramTypes[0], (list, tuple)):
                     return list(x.values())[0]
                 else:
                     return x
@@ -61,7 +61,7 @@ class DefaultOnNull(LibFcn):
             if isinstance(paramTypes[-1], (list, tuple)):
                 return x
             else:
-                if isinstance(x, dict):
+                if isinstance(x, dict) and isinstance(paramTypes[0], (list, tuple)):
                     return list(x.values())[0]
                 else:
                     return x
-- 
2.43.0


From b9bfb5bc557f788e7110be0eb66a0c3c570dbf2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:01 +0000
Subject: [PATCH 16/85] fix: stat.sample.fillHistogram starts growing an empty
 histogram at the right bin

---
 titus/lib/stat/sample.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/titus/lib/stat/sample.py b/titus/lib/stat/sample.py
index ad73f7a..9f96693 100644
--- a/titus/lib/stat/sample.py
+++ b/titus/lib/stat/sample.py
@@ -544,11 +544,7 @@ class FillHistogram(LibFcn):
                 underflow, overflow, nanflow, infflow = False, False, False, False
                 
             if not underflow and not overflow and not nanflow and not infflow:
-                currentHigh = low + binsize * len(values)
-                try:
-                    index = int(math.floor((x - low) / (currentHigh - low) * len(values)))
-                except ZeroDivisionError:
-                    index = 0
+                index = int(math.floor((x - low) / binsize))
                 if index < len(values):
                     newValues = list(values)
                     newValues[index] = newValues[index] + w
-- 
2.43.0


From 257ae2bc6a7150fd02c8f1511872c845f4e9b901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:01 +0000
Subject: [PATCH 17/85] fix: stat.change.zValue with a count of one is not a
 division by zero

---
 titus/lib/stat/change.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/titus/lib/stat/change.py b/titus/lib/stat/change.py
index ba0ad2b..e5e6949 100644
--- a/titus/lib/stat/change.py
+++ b/titus/lib/stat/change.py
@@ -78,11 +78,12 @@ class ZValue(LibFcn):
         else:
             unbiased, = args
             count = meanVariance["count"]
-            if count / (count - 1.0) >= 0.0:
-                correction = math.sqrt((count) / (count - 1.0))
-            else:
-                correction = float("nan")
             if unbiased:
+                ratio = div(count, count - 1.0)
+                if ratio >= 0.0:
+                    correction = math.sqrt(ratio)
+                else:
+                    correction = float("nan")
                 return div(x - mean, sigma) * correction
             else:
                 return div(x - mean, sigma)
-- 
2.43.0


From 9a815f79db086be3a99f6c7ff9ca3de054c6e22d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:01 +0000
Subject: [PATCH 18/85] fix: stat.test.updateChi2 accepts an integer pull

---
 titus/lib/stat/pfatest.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/stat/pfatest.py b/titus/lib/stat/pfatest.py
index c96a257..efd82bb 100644
--- a/titus/lib/stat/pfatest.py
+++ b/titus/lib/stat/pfatest.py
@@ -181,7 +181,7 @@ class UpdateChi2(LibFcn):
                 Sig([{"pull": P.Map(P.Double())}, {"state": P.WildRecord("A", {"chi2": P.Double(), "dof": P.Int()})}], P.Wildcard("A"))])
     errcodeBase = 38040
     def __call__(self, state, scope, pos, paramTypes, pull, state_):
-        if isinstance(pull, float):
+        if isinstance(pull, (int, float)):
             return dict(state_, chi2=(state_["chi2"] + pull*pull), dof=(state_["dof"] + 1))
         elif isinstance(pull, (tuple, list)):
             return dict(state_, chi2=(state_["chi2"] + sum([y**2 for y in pull])), dof=(state_["dof"] + 1))
-- 
2.43.0


From d0a18bfbaff95fcde2ddb8f6d265601bd39c95bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:32 +0000
Subject: [PATCH 19/85] fix: tagged unions name types with a namespace by their
 full name (reading such a value was refused, model trees in a namespace never
 descended)

---
 titus/datatype.py       | 31 ++++++++++++++++++++-----------
 titus/genpy.py          |  4 ++--
 titus/lib/array.py      |  4 ++--
 titus/lib/map.py        |  4 ++--
 titus/lib/model/tree.py | 15 +++++++++++----
 5 files changed, 37 insertions(+), 21 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index d8c3c0c..894bc74 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -169,9 +169,14 @@ class AvroType(Type):
 
     @property
     def name(self):
-        """Return "name" of this type, which is used as a key in tagged unions."""
+        """Return "name" of this type."""
         return None
 
+    @property
+    def tag(self):
+        """Return the key used for this type in tagged unions."""
+        return self.name
+
     def __eq__(self, other):
         """Return ``True`` if the two types are equal."""
         if isinstance(other, AvroType):
@@ -316,6 +321,10 @@ class AvroCompiled(AvroType):
         if self.schema.namespace is None or self.schema.namespace == '':
             return self.schema.name
         return self.schema.fullname
+    @property
+    def tag(self):
+        """Return the key used for this type in tagged unions: the full name."""
+        return self.fullName
 
 class AvroNumber(AvroType):
     """Numeric AvroTypes (AvroInt, AvroLong, AvroFloat, AvroDouble)."""
@@ -556,7 +565,7 @@ class AvroUnion(AvroType):
         :type types: list of titus.datatype.AvroType
         :param types: possible types for this union in the order of their resolution
         """
-        names = set([x.name for x in types])
+        names = set([x.tag for x in types])
         if len(types) != len(names):
             raise titus.errors.AvroException("duplicate in union: " + ", ".join(map(ts, types)))
         if "union" in names:
@@ -943,7 +952,7 @@ def jsonDecoder(avroType, value):
         if isinstance(value, dict) and len(value) == 1:
             tag, = list(value.keys())
             val, = list(value.values())
-            types = dict((x.name, x) for x in avroType.types)
+            types = dict((x.tag, x) for x in avroType.types)
             if tag in types:
                 return {tag: jsonDecoder(types[tag], val)}
         elif value is None and "null" in [x.name for x in avroType.types]:
@@ -1006,14 +1015,14 @@ def jsonEncoder(avroType, value, tagged=True):
         if isinstance(value, dict) and len(value) == 1:
             tag, = list(value.keys())
             val, = list(value.values())
-            for t in sorted(avroType.types, key=lambda t: t.name != tag):   # the tag names the type
+            for t in sorted(avroType.types, key=lambda t: t.tag != tag):   # the tag names the type
                 try:
                     out = jsonEncoder(t, val, tagged)
                 except titus.errors.AvroException:
                     pass
                 else:
                     if tagged:
-                        return {t.name: out}
+                        return {t.tag: out}
                     else:
                         return out
         for t in avroType.types:
@@ -1023,7 +1032,7 @@ def jsonEncoder(avroType, value, tagged=True):
                 pass
             else:
                 if tagged:
-                    return {t.name: out}
+                    return {t.tag: out}
                 else:
                     return out
     raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=str), ts(avroType)))
@@ -1050,7 +1059,7 @@ def avroEncoder(avroType, value):
     elif isinstance(avroType, AvroUnion) and isinstance(value, dict) and len(value) == 1:
         (tag, val), = value.items()
         for t in avroType.types:
-            if t.name == tag:
+            if t.tag == tag:
                 return avroEncoder(t, val)
     return value
 
@@ -1141,7 +1150,7 @@ def compare(avroType, x, y):
     elif isinstance(avroType, AvroUnion):
         if isinstance(x, dict) and len(x) == 1:
             (xtag, x), = list(x.items())
-            xtypei, xtype = [(ti, t) for ti, t in enumerate(avroType.types) if t.name == xtag][0]
+            xtypei, xtype = [(ti, t) for ti, t in enumerate(avroType.types) if t.tag == xtag][0]
         else:
             xtypei = None
             for ti, t in enumerate(avroType.types):
@@ -1156,7 +1165,7 @@ def compare(avroType, x, y):
                 raise titus.errors.AvroException()
         if isinstance(y, dict) and len(y) == 1:
             (ytag, y), = list(y.items())
-            ytypei, ytype = [(ti, t) for ti, t in enumerate(avroType.types) if t.name == ytag][0]
+            ytypei, ytype = [(ti, t) for ti, t in enumerate(avroType.types) if t.tag == ytag][0]
         else:
             ytypei = None
             for ti, t in enumerate(avroType.types):
@@ -1339,7 +1348,7 @@ def checkData(data, avroType):
             tag, = list(data.keys())
             value, = list(data.values())
             for tpe in avroType.types:
-                if tpe.name == tag:
+                if tpe.tag == tag:
                     if tag == "null":
                         return checkData(value, tpe)
                     else:
@@ -1355,7 +1364,7 @@ def checkData(data, avroType):
                 if tpe.name == "null":
                     return newData
                 else:
-                    return {tpe.name: newData}
+                    return {tpe.tag: newData}
         raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     return data
diff --git a/titus/genpy.py b/titus/genpy.py
index 7049804..719b2e5 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -433,7 +433,7 @@ class GeneratePython(titus.pfaast.Task):
             if isinstance(context.retType, titus.datatype.AvroUnion) and not isinstance(context.originalType, titus.datatype.AvroUnion):
                 for t in context.retType.types:
                     if t.accepts(context.originalType):
-                        return "wrapAsUnion({}, {})".format(context.expr, repr(t.name))
+                        return "wrapAsUnion({}, {})".format(context.expr, repr(t.tag))
                 raise Exception   # type-checking should have prevented this
             else:
                 return context.expr
@@ -975,7 +975,7 @@ def cast(state, scope, expr, fromType, cases, partial, parser):
             tag, = list(expr.keys())
             value, = list(expr.values())
 
-            if not ((tag == toType.name) or \
+            if not ((tag == toType.tag) or \
                     (tag == "int" and toType.name in ("long", "float", "double")) or \
                     (tag == "long" and toType.name in ("float", "double")) or \
                     (tag == "float" and toType.name == "double")):
diff --git a/titus/lib/array.py b/titus/lib/array.py
index 07ed519..5a84a4b 100644
--- a/titus/lib/array.py
+++ b/titus/lib/array.py
@@ -958,7 +958,7 @@ class FilterMap(LibFcn):
     sig = Sig([{"a": P.Array(P.Wildcard("A"))}, {"fcn": P.Fcn([P.Wildcard("A")], P.Union([P.Wildcard("B"), P.Null()]))}], P.Array(P.Wildcard("B")))
     errcodeBase = 15610
     def __call__(self, state, scope, pos, paramTypes, a, fcn):
-        typeNames = [jsonNodeToAvroType(t).name for t in paramTypes[1]["ret"] if t != "null"]
+        typeNames = [jsonNodeToAvroType(t).tag for t in paramTypes[1]["ret"] if t != "null"]
         out = []
         for x in a:
             y = callfcn(state, scope, fcn, [x])
@@ -976,7 +976,7 @@ class FilterMapWithIndex(LibFcn):
     sig = Sig([{"a": P.Array(P.Wildcard("A"))}, {"fcn": P.Fcn([P.Int(), P.Wildcard("A")], P.Union([P.Wildcard("B"), P.Null()]))}], P.Array(P.Wildcard("B")))
     errcodeBase = 15620
     def __call__(self, state, scope, pos, paramTypes, a, fcn):
-        typeNames = [jsonNodeToAvroType(t).name for t in paramTypes[1]["ret"] if t != "null"]
+        typeNames = [jsonNodeToAvroType(t).tag for t in paramTypes[1]["ret"] if t != "null"]
         out = []
         for i, x in enumerate(a):
             y = callfcn(state, scope, fcn, [i, x])
diff --git a/titus/lib/map.py b/titus/lib/map.py
index b642d28..269d69d 100644
--- a/titus/lib/map.py
+++ b/titus/lib/map.py
@@ -438,7 +438,7 @@ class FilterMap(LibFcn):
     sig = Sig([{"m": P.Map(P.Wildcard("A"))}, {"fcn": P.Fcn([P.Wildcard("A")], P.Union([P.Wildcard("B"), P.Null()]))}], P.Map(P.Wildcard("B")))
     errcodeBase = 26330
     def __call__(self, state, scope, pos, paramTypes, m, fcn):
-        typeNames = [jsonNodeToAvroType(t).name for t in paramTypes[1]["ret"] if t != "null"]
+        typeNames = [jsonNodeToAvroType(t).tag for t in paramTypes[1]["ret"] if t != "null"]
         out = {}
         for k, v in list(m.items()):
             vv = callfcn(state, scope, fcn, [v])
@@ -456,7 +456,7 @@ class FilterMapWithKey(LibFcn):
     sig = Sig([{"m": P.Map(P.Wildcard("A"))}, {"fcn": P.Fcn([P.String(), P.Wildcard("A")], P.Union([P.Wildcard("B"), P.Null()]))}], P.Map(P.Wildcard("B")))
     errcodeBase = 26340
     def __call__(self, state, scope, pos, paramTypes, m, fcn):
-        typeNames = [jsonNodeToAvroType(t).name for t in paramTypes[1]["ret"] if t != "null"]
+        typeNames = [jsonNodeToAvroType(t).tag for t in paramTypes[1]["ret"] if t != "null"]
         out = {}
         for k, v in list(m.items()):
             vv = callfcn(state, scope, fcn, [k, v])
diff --git a/titus/lib/model/tree.py b/titus/lib/model/tree.py
index 6022d22..fa33109 100644
--- a/titus/lib/model/tree.py
+++ b/titus/lib/model/tree.py
@@ -34,6 +34,13 @@ prefix = "model.tree."
 
 #################################################################### 
 
+def fullName(recordType):
+    """Name of a record type in tagged unions, including its namespace."""
+    if recordType.get("namespace"):
+        return recordType["namespace"] + "." + recordType["name"]
+    else:
+        return recordType["name"]
+
 def simpleComparison(paramTypes, datum, comparison, missingOperators, parser, code1, code2, fcnName, pos):
     field = comparison["field"]
     fieldValue = datum[field]
@@ -51,7 +58,7 @@ def simpleComparison(paramTypes, datum, comparison, missingOperators, parser, co
             else:
                 fieldValueType = withoutNull
 
-            if isinstance(fieldValue, dict) and len(fieldValue) == 1 and any(parser.getAvroType(x).name == list(fieldValue.keys())[0] for x in withoutNull):
+            if isinstance(fieldValue, dict) and len(fieldValue) == 1 and any(parser.getAvroType(x).tag == list(fieldValue.keys())[0] for x in withoutNull):
                 fieldValue, = list(fieldValue.values())
         
     fieldValueType = parser.getAvroType(fieldValueType)
@@ -205,7 +212,7 @@ class SimpleWalk(LibFcn):
     sig = Sig([{"datum": P.WildRecord("D", {})}, {"treeNode": P.WildRecord("T", {"pass": P.Union([P.WildRecord("T", {}), P.Wildcard("S")]), "fail": P.Union([P.WildRecord("T", {}), P.Wildcard("S")])})}, {"test": P.Fcn([P.WildRecord("D", {}), P.WildRecord("T", {})], P.Boolean())}], P.Wildcard("S"))
     errcodeBase = 32040
     def __call__(self, state, scope, pos, paramTypes, datum, treeNode, test):
-        treeNodeTypeName = paramTypes[1]["name"]
+        treeNodeTypeName = fullName(paramTypes[1])
         node = treeNode
         while True:
             if callfcn(state, scope, test, [datum, node]):
@@ -227,7 +234,7 @@ class MissingWalk(LibFcn):
     sig = Sig([{"datum": P.WildRecord("D", {})}, {"treeNode": P.WildRecord("T", {"pass": P.Union([P.WildRecord("T", {}), P.Wildcard("S")]), "fail": P.Union([P.WildRecord("T", {}), P.Wildcard("S")]), "missing": P.Union([P.WildRecord("T", {}), P.Wildcard("S")])})}, {"test": P.Fcn([P.WildRecord("D", {}), P.WildRecord("T", {})], P.Union([P.Null(), P.Boolean()]))}], P.Wildcard("S"))
     errcodeBase = 32050
     def __call__(self, state, scope, pos, paramTypes, datum, treeNode, test):
-        treeNodeTypeName = paramTypes[1]["name"]
+        treeNodeTypeName = fullName(paramTypes[1])
         node = treeNode
         while True:
             result = callfcn(state, scope, test, [datum, node])
@@ -252,7 +259,7 @@ class SimpleTree(LibFcn):
     sig = Sig([{"datum": P.WildRecord("D", {})}, {"treeNode": P.WildRecord("T", {"field": P.EnumFields("F", "D"), "operator": P.String(), "value": P.Wildcard("V"), "pass": P.Union([P.WildRecord("T", {}), P.Wildcard("S")]), "fail": P.Union([P.WildRecord("T", {}), P.Wildcard("S")])})}], P.Wildcard("S"))
     errcodeBase = 32060
     def __call__(self, state, scope, pos, paramTypes, datum, treeNode):
-        treeNodeTypeName = paramTypes[1]["name"]
+        treeNodeTypeName = fullName(paramTypes[1])
         node = treeNode
         while True:
             if simpleComparison(paramTypes, datum, node, True, state.parser, self.errcodeBase + 1, self.errcodeBase + 0, self.name, pos):
-- 
2.43.0


From 0965159bdf20244774f7607eaa1f7e1e8c518bc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:55 +0000
Subject: [PATCH 20/85] fix: JSON values are decoded as int, long, float or
 double only if they are numbers in range, casts do not truncate doubles to
 int

---
 titus/datatype.py | 24 ++++++++----------------
 titus/genpy.py    |  2 ++
 2 files changed, 10 insertions(+), 16 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 894bc74..a6ef472 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -897,25 +897,17 @@ def jsonDecoder(avroType, value):
         if value is True or value is False:
             return value
     elif isinstance(avroType, AvroInt):
-        try:
+        if isinstance(value, (int, float)) and not isinstance(value, bool) and -2**31 <= value < 2**31:
             return int(value)
-        except (ValueError, TypeError):
-            pass
     elif isinstance(avroType, AvroLong):
-        try:
+        if isinstance(value, (int, float)) and not isinstance(value, bool) and -2**63 <= value < 2**63:
             return int(value)
-        except (ValueError, TypeError):
-            pass
-    elif isinstance(avroType, AvroFloat):
-        try:
-            return float(value)
-        except (ValueError, TypeError):
-            pass
-    elif isinstance(avroType, AvroDouble):
-        try:
-            return float(value)
-        except (ValueError, TypeError):
-            pass
+    elif isinstance(avroType, (AvroFloat, AvroDouble)):
+        if isinstance(value, (int, float)) and not isinstance(value, bool):
+            try:
+                return float(value)
+            except OverflowError:
+                pass
     elif isinstance(avroType, AvroBytes):
         if isinstance(value, str):
             return value
diff --git a/titus/genpy.py b/titus/genpy.py
index 719b2e5..024b1f3 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -983,6 +983,8 @@ def cast(state, scope, expr, fromType, cases, partial, parser):
 
         else:
             value = expr
+            if isinstance(toType, (titus.datatype.AvroInt, titus.datatype.AvroLong)) and isinstance(value, float):
+                continue
 
         try:
             castValue = titus.datatype.jsonDecoder(toType, value)
-- 
2.43.0


From a70cb7504d9e7f1a3efea5866564d0e94436d421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:49 +0000
Subject: [PATCH 21/85] fix: AvroPlaceholder.toJson does not forget type
 definitions after its first call, getAvroType returns maps for maps

---
 titus/datatype.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index a6ef472..917f92c 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -672,13 +672,13 @@ class AvroPlaceholder(object):
         """Represent the resolved type as a JSON string."""
         return json.dumps(self.jsonNode())
 
-    def jsonNode(self, memo=set()):
+    def jsonNode(self, memo=None):
         """Represent the resolved type as a Jackson node.
 
         :type memo: set of strings
         :param memo: used to avoid infinite loops with recursive records
         """
-        return self.avroType.jsonNode(memo)
+        return self.avroType.jsonNode(set() if memo is None else memo)
 
     @property
     def parser(self):
@@ -811,7 +811,7 @@ class ForwardDeclarationParser(object):
             elif description.get("type") == "array" and "items" in description:
                 return AvroArray(self.getAvroType(description["items"]))
             elif description.get("type") == "map" and "values" in description:
-                return AvroArray(self.getAvroType(description["values"]))
+                return AvroMap(self.getAvroType(description["values"]))
             elif description.get("type") in ("fixed", "enum", "record"):
                 if self.names.has_name(description.get("name"), description.get("namespace")):
                     return schemaToAvroType(self.names.get_name(description.get("name"), description.get("namespace")))
-- 
2.43.0


From d22bc8b99aec286c6568e326cbbfb73a123ffd3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:15 +0000
Subject: [PATCH 22/85] fix: unpack accepts bytes held as strings (what pack,
 literals and library functions are compared with)

---
 titus/genpy.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/titus/genpy.py b/titus/genpy.py
index 024b1f3..1e8f0b0 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1164,6 +1164,9 @@ class MisalignedPacking(Exception):
 def unpackOne(byte_s, scope, s, f, l):
     """Helper function for unpack."""
 
+    if isinstance(byte_s, str):
+        byte_s = titus.util.stringToBytes(byte_s)
+
     if f == "raw":
         this, that = byte_s[:l], byte_s[l:]
         if len(this) != l:
-- 
2.43.0


From ed2f6de27e95f0fabca91337d0925aa0c4ac6d23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:15 +0000
Subject: [PATCH 23/85] fix: comparison orders nan consistently for floats and
 compares bytes in both representations, casts accept bytes objects

---
 titus/datatype.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 917f92c..db0f2f8 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -909,10 +909,10 @@ def jsonDecoder(avroType, value):
             except OverflowError:
                 pass
     elif isinstance(avroType, AvroBytes):
-        if isinstance(value, str):
+        if isinstance(value, (str, bytes)):
             return value
     elif isinstance(avroType, AvroFixed):
-        if isinstance(value, str):
+        if isinstance(value, (str, bytes)):
             if len(value) == avroType.size:
                 return value
     elif isinstance(avroType, AvroString):
@@ -1079,7 +1079,6 @@ def compare(avroType, x, y):
     elif isinstance(avroType, AvroLong) and isinstance(x, int) and x is not True and x is not False and isinstance(y, int) and y is not True and y is not False:
         return (x > y) - (x < y)
     elif isinstance(avroType, AvroFloat) and isinstance(x, (int, float)) and x is not True and x is not False and isinstance(y, (int, float)) and y is not True and y is not False:
-        return (x > y) - (x < y)
         if math.isnan(x):
             if math.isnan(y):
                 return 0
@@ -1101,9 +1100,10 @@ def compare(avroType, x, y):
                 return -1
             else:
                 return (x > y) - (x < y)
-    elif isinstance(avroType, AvroBytes) and isinstance(x, str) and isinstance(y, str):
-        return (x > y) - (x < y)
-    elif isinstance(avroType, AvroFixed) and isinstance(x, str) and isinstance(y, str):
+    elif isinstance(avroType, (AvroBytes, AvroFixed)) and isinstance(x, (str, bytes)) and isinstance(y, (str, bytes)):
+        # bytes are held as bytes objects (input data) or as Latin-1 strings (everything else)
+        x = bytesToString(x) if isinstance(x, bytes) else x
+        y = bytesToString(y) if isinstance(y, bytes) else y
         return (x > y) - (x < y)
     elif isinstance(avroType, AvroString) and isinstance(x, str) and isinstance(y, str):
         return (x > y) - (x < y)
-- 
2.43.0


From f8e077989f15b8e6b690dc0584e1ad8d3b3c4397 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:03:47 +0000
Subject: [PATCH 24/85] fix: input checking refuses booleans as numbers,
 integers out of range and fixed values of the wrong size

---
 titus/datatype.py | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index db0f2f8..4c183de 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1239,9 +1239,9 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, integerTypes):
             data = int(data)
-        elif isinstance(data, int):
-            return data
-        else:
+        elif not isinstance(data, int) or isinstance(data, bool):
+            raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+        if not -2**31 <= data < 2**31:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroLong):
@@ -1252,9 +1252,9 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, integerTypes):
             data = int(data)
-        elif isinstance(data, int):
-            return data
-        else:
+        elif not isinstance(data, int) or isinstance(data, bool):
+            raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
+        if not -2**63 <= data < 2**63:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroFloat):
@@ -1265,7 +1265,7 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, floatTypes):
             data = float(data)
-        elif isinstance(data, int):
+        elif isinstance(data, int) and not isinstance(data, bool):
             data = float(data)
         elif isinstance(data, float):
             return data
@@ -1280,7 +1280,7 @@ def checkData(data, avroType):
                 raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
         elif isinstance(data, floatTypes):
             return float(data)
-        elif isinstance(data, int):
+        elif isinstance(data, int) and not isinstance(data, bool):
             return float(data)
         elif isinstance(data, float):
             return data
@@ -1288,11 +1288,9 @@ def checkData(data, avroType):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, (AvroBytes, AvroFixed)):
-        if isinstance(data, bytes):
-            return data
-        elif isinstance(data, str):
-            return stringToBytes(data)
-        else:
+        if isinstance(data, str):
+            data = stringToBytes(data)
+        if not isinstance(data, bytes) or (isinstance(avroType, AvroFixed) and len(data) != avroType.size):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, (AvroString, AvroEnum)):
-- 
2.43.0


From cb2cc1c186b64499c642e3af38f9b985514d21ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:06:30 +0000
Subject: [PATCH 25/85] fix: null and union-typed field defaults are kept and
 used

---
 titus/datatype.py       | 17 +++++++++++++----
 titus/producer/chain.py |  2 +-
 2 files changed, 14 insertions(+), 5 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 4c183de..b992ead 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -192,7 +192,7 @@ class AvroType(Type):
 
     def _recordFieldsOkay(self, other, memo, checkRecord):
         for xf in self.fields:
-            if xf.default is None:
+            if not xf.hasDefault:
                 if not any(xf.name == yf.name and xf.avroType.accepts(yf.avroType, memo, checkRecord) for yf in other.fields):
                     return False
             else:
@@ -624,13 +624,17 @@ class AvroField(object):
         else:
             return None
     @property
+    def hasDefault(self):
+        """Return ``True`` if the field has a default value (which may be ``None``, the value of type null)."""
+        return self.schema.has_default
+    @property
     def order(self):
         """Get the field order."""
         return self.schema.order
     def jsonNode(self, memo):
         """Get the field as a Python-encoded JSON node."""
         out = {"name": self.name, "type": self.avroType.jsonNode(memo)}
-        if self.default is not None:
+        if self.hasDefault:
             out["default"] = self.default
         if self.order is not None:
             out["order"] = self.order
@@ -933,7 +937,12 @@ def jsonDecoder(avroType, value):
             for field in avroType.fields:
                 if field.name in value:
                     out[field.name] = jsonDecoder(field.avroType, value[field.name])
-                elif field.default is not None:
+                elif field.hasDefault and isinstance(field.avroType, AvroUnion):
+                    # the default of a union is a value of its first type, without a tag
+                    first = field.avroType.types[0]
+                    default = jsonDecoder(first, field.default)
+                    out[field.name] = None if isinstance(first, AvroNull) else {first.tag: default}
+                elif field.hasDefault:
                     out[field.name] = jsonDecoder(field.avroType, field.default)
                 elif isinstance(field.avroType, AvroNull):
                     out[field.name] = None
@@ -996,7 +1005,7 @@ def jsonEncoder(avroType, value, tagged=True):
         for field in avroType.fields:
             if field.name in value:
                 out[field.name] = jsonEncoder(field.avroType, value[field.name], tagged)
-            elif field.default is not None:
+            elif field.hasDefault:
                 pass
             else:
                 raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=str), ts(avroType)))
diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 9fc1ac0..86f0ad5 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -374,7 +374,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                 memo[newName] = join(ns, n)
                 for f in avroType.fields:
                     newf = {"name": f.name, "type": rename(i, f.avroType, memo)}
-                    if f.default is not None:
+                    if f.hasDefault:
                         newf["default"] = f.default
                     if f.order is not None:
                         newf["order"] = f.order
-- 
2.43.0


From 950ec2a16a27448a8f03bad336c3c19c1d481c35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:10:42 +0000
Subject: [PATCH 26/85] fix: comparison resolves promoted and untagged union
 values (IndexError, or int 3 unequal to literal 3), function types do not
 accept other types with an AttributeError

---
 titus/datatype.py | 64 ++++++++++++++++++++++++-----------------------
 1 file changed, 33 insertions(+), 31 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index b992ead..ae2f26d 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -50,7 +50,7 @@ class FcnType(Type):
         return self._ret
 
     def accepts(self, other):
-        if isinstance(self, FcnType):
+        if isinstance(other, FcnType):
             return len(self.params) == len(other.params) and \
                    all(y.accepts(x) for x, y in zip(self.params, other.params)) and \
                    self.ret.accepts(other.ret)
@@ -1064,6 +1064,36 @@ def avroEncoder(avroType, value):
                 return avroEncoder(t, val)
     return value
 
+def _resolveUnion(avroType, value):
+    """Find the alternative of a union that a value belongs to: the one named by its tag, or else the first one that could represent it (after promotion, which can leave a value tagged with the type it was promoted from).
+
+    :type avroType: titus.datatype.AvroUnion
+    :param avroType: type of this object
+    :type value: dicts, lists, strings, numbers, ``True``, ``False``, ``None``
+    :param value: tagged or untagged value
+    :rtype: (int, titus.datatype.AvroType, value)
+    :return: index of the type, the type, and the value without its tag
+    """
+
+    candidates = [value]
+    if isinstance(value, dict) and len(value) == 1:
+        (tag, untagged), = list(value.items())
+        for ti, t in enumerate(avroType.types):
+            if t.tag == tag:
+                return ti, t, untagged
+        candidates.insert(0, untagged)
+
+    for x in candidates:
+        # an integer is only represented by a floating point type if it can't be represented by an integer type
+        for ti, t in sorted(enumerate(avroType.types), key=lambda tit: isinstance(x, int) and isinstance(tit[1], (AvroFloat, AvroDouble))):
+            try:
+                jsonEncoder(t, x)
+            except titus.errors.AvroException:
+                pass
+            else:
+                return ti, t, x
+    raise titus.errors.AvroException("{0} does not match schema {1}".format(json.dumps(value, default=str), ts(avroType)))
+
 def compare(avroType, x, y):
     """Returns -1, 0, or 1 depending on whether x is less than, equal to, or greater than y, according to the schema.
 
@@ -1149,36 +1179,8 @@ def compare(avroType, x, y):
                     return comparison
         return 0
     elif isinstance(avroType, AvroUnion):
-        if isinstance(x, dict) and len(x) == 1:
-            (xtag, x), = list(x.items())
-            xtypei, xtype = [(ti, t) for ti, t in enumerate(avroType.types) if t.tag == xtag][0]
-        else:
-            xtypei = None
-            for ti, t in enumerate(avroType.types):
-                try:
-                    jsonEncoder(t, x)
-                except titus.errors.AvroException:
-                    pass
-                else:
-                    xtypei = ti
-                    xtype = t
-            if xtypei is None:
-                raise titus.errors.AvroException()
-        if isinstance(y, dict) and len(y) == 1:
-            (ytag, y), = list(y.items())
-            ytypei, ytype = [(ti, t) for ti, t in enumerate(avroType.types) if t.tag == ytag][0]
-        else:
-            ytypei = None
-            for ti, t in enumerate(avroType.types):
-                try:
-                    jsonEncoder(t, y)
-                except titus.errors.AvroException:
-                    pass
-                else:
-                    ytypei = ti
-                    ytype = t
-            if ytypei is None:
-                raise titus.errors.AvroException()
+        xtypei, xtype, x = _resolveUnion(avroType, x)
+        ytypei, ytype, y = _resolveUnion(avroType, y)
         if xtypei == ytypei:
             return compare(xtype, x, y)
         else:
-- 
2.43.0


From 401fc98b8d3efc2be15ecaba8ebf6638f025ff55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:09 +0000
Subject: [PATCH 27/85] fix: integers out of range are not encoded as int or
 long (a long in a union with int was tagged int)

---
 titus/datatype.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index ae2f26d..132c2fc 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -979,9 +979,9 @@ def jsonEncoder(avroType, value, tagged=True):
         return value
     elif isinstance(avroType, AvroBoolean) and (value is True or value is False):
         return value
-    elif isinstance(avroType, AvroInt) and isinstance(value, int) and value is not True and value is not False:
+    elif isinstance(avroType, AvroInt) and isinstance(value, int) and value is not True and value is not False and -2**31 <= value < 2**31:
         return value
-    elif isinstance(avroType, AvroLong) and isinstance(value, int) and value is not True and value is not False:
+    elif isinstance(avroType, AvroLong) and isinstance(value, int) and value is not True and value is not False and -2**63 <= value < 2**63:
         return value
     elif isinstance(avroType, AvroFloat) and isinstance(value, (int, float)) and value is not True and value is not False:
         return float(value)
-- 
2.43.0


From f8dd95e3154ca3bc4c91934023670abf4b055baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:12:09 +0000
Subject: [PATCH 28/85] fix: input checking refuses strings and maps as arrays,
 strings and arrays as maps

---
 titus/datatype.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index 132c2fc..e6859fc 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -1311,13 +1311,13 @@ def checkData(data, avroType):
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroArray):
-        if hasattr(data, "__iter__"):
+        if hasattr(data, "__iter__") and not isinstance(data, (str, bytes, dict)):
             return [checkData(x, avroType.items) for x in data]
         else:
             raise TypeError("expecting {0}, found {1}".format(ts(avroType), data))
 
     elif isinstance(avroType, AvroMap):
-        if hasattr(data, "__iter__") and hasattr(data, "__getitem__"):
+        if hasattr(data, "__iter__") and hasattr(data, "__getitem__") and not isinstance(data, (str, bytes, list, tuple)):
             newData = {}
             for key in data:
                 value = checkData(data[key], avroType.values)
-- 
2.43.0


From b9e013690afd05aa09e066e2a946299772d04703 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:30:00 +0000
Subject: [PATCH 29/85] fix: JSON strings with code points above 255 are not
 values of type bytes or fixed

---
 titus/datatype.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index e6859fc..cfd6d51 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -883,6 +883,10 @@ class AvroTypeBuilder(object):
 
 ########################### Avro-Python is missing a JSON decoder, encoder, and comparator
 
+def _isBytes(value):
+    """Return ``True`` if value is a bytes object or a string of code points that represent bytes (Latin-1)."""
+    return isinstance(value, bytes) or (isinstance(value, str) and all(ord(x) < 256 for x in value))
+
 def jsonDecoder(avroType, value):
     """Decode a JSON object as a given titus.datatype.AvroType.
 
@@ -913,10 +917,10 @@ def jsonDecoder(avroType, value):
             except OverflowError:
                 pass
     elif isinstance(avroType, AvroBytes):
-        if isinstance(value, (str, bytes)):
+        if _isBytes(value):
             return value
     elif isinstance(avroType, AvroFixed):
-        if isinstance(value, (str, bytes)):
+        if _isBytes(value):
             if len(value) == avroType.size:
                 return value
     elif isinstance(avroType, AvroString):
@@ -987,9 +991,9 @@ def jsonEncoder(avroType, value, tagged=True):
         return float(value)
     elif isinstance(avroType, AvroDouble) and isinstance(value, (int, float)) and value is not True and value is not False:
         return float(value)
-    elif isinstance(avroType, AvroBytes) and isinstance(value, (str, bytes)):
+    elif isinstance(avroType, AvroBytes) and _isBytes(value):
         return bytesToString(value) if isinstance(value, bytes) else value
-    elif isinstance(avroType, AvroFixed) and isinstance(value, (str, bytes)):
+    elif isinstance(avroType, AvroFixed) and _isBytes(value):
         if len(value) == avroType.size:
             return bytesToString(value) if isinstance(value, bytes) else value
     elif isinstance(avroType, AvroString) and isinstance(value, str):
-- 
2.43.0


From dd6bc794ddb0c393a5f9eb0c9344e673583c72e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:31 +0000
Subject: [PATCH 30/85] fix: ForwardDeclarationParser.getAvroType accepts types
 described as JSON text

---
 titus/datatype.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/titus/datatype.py b/titus/datatype.py
index cfd6d51..18e961f 100644
--- a/titus/datatype.py
+++ b/titus/datatype.py
@@ -770,7 +770,11 @@ class ForwardDeclarationParser(object):
 
     def getAvroType(self, description):
         if isinstance(description, str):
-            if self.names.has_name(description, None):
+            try:
+                isName = self.names.has_name(description, None)
+            except avro.schema.SchemaParseException:    # not a name, but a type in JSON
+                isName = False
+            if isName:
                 return schemaToAvroType(self.names.get_name(description, None))
             elif description == "null":
                 return AvroNull()
-- 
2.43.0


From 54e5e7b49dd786cb417f8d57c35667fbec4edc0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:09 +0000
Subject: [PATCH 31/85] fix: set of variables from different scopes (the outer
 scope was asked for the inner variable)

---
 titus/util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/util.py b/titus/util.py
index f249227..7d30c59 100644
--- a/titus/util.py
+++ b/titus/util.py
@@ -148,7 +148,7 @@ class DynamicScope(object):
             if symbol in self.symbols:
                 self.symbols[symbol] = value
             elif self.parent is not None:
-                self.parent.set(nameExpr)
+                self.parent.set({symbol: value})
             else:
                 raise RuntimeError()
 
-- 
2.43.0


From 909280038bf5838d00dd4a0ad4e9dfea8a5ff823 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:32 +0000
Subject: [PATCH 32/85] fix: attr-to, cell-to and pool-to report a missing last
 index or key (it was silently ignored), paths do not read negative indexes

---
 titus/genpy.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 1e8f0b0..15f95ae 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -643,6 +643,8 @@ def get(obj, path, arrayErrCode, mapErrCode, fcnName, pos):
     while len(path) > 0:
         head, tail = path[0], path[1:]
         try:
+            if isinstance(obj, (list, tuple)) and head < 0:
+                raise IndexError
             obj = obj[head]
         except (KeyError, IndexError):
             if isinstance(obj, (list, tuple)):
@@ -682,7 +684,7 @@ def update(state, scope, obj, path, to, arrayErrCode, mapErrCode, fcnName, pos):
         head, tail = path[0], path[1:]
 
         if isinstance(obj, dict):
-            if len(tail) > 0 and head not in obj:
+            if head not in obj:
                 raise PFARuntimeException("map key not found", mapErrCode, fcnName, pos)
             out = {}
             for k, v in list(obj.items()):
@@ -693,7 +695,7 @@ def update(state, scope, obj, path, to, arrayErrCode, mapErrCode, fcnName, pos):
             return out
 
         elif isinstance(obj, (list, tuple)):
-            if (len(tail) > 0 and head >= len(obj)) or head < 0:
+            if head >= len(obj) or head < 0:
                 raise PFARuntimeException("array index not found", arrayErrCode, fcnName, pos)
             out = []
             for i, x in enumerate(obj):
-- 
2.43.0


From 777ad805747be4280946a4a7a92b9cfc74466367 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:56 +0000
Subject: [PATCH 33/85] fix: failing updates release the locks of shared cells
 and pools, leave nothing behind, pool-del waits for them

---
 titus/genpy.py | 51 ++++++++++++++++++++++++--------------------------
 1 file changed, 24 insertions(+), 27 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 15f95ae..fa2ecba 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -295,11 +295,7 @@ class GeneratePython(titus.pfaast.Task):
 
             out.append("""
     def pooldel(self, name, item):
-        p = self.pools[name]
-        try:
-            del p.value[item]
-        except KeyError:
-            pass
+        self.pools[name].remove(item)
         return None
 """)
 
@@ -538,10 +534,9 @@ class Cell(PersistentStorageItem):
     def update(self, state, scope, path, to, arrayErrCode, mapErrCode, fcnName, pos):
         result = None
         if self.shared:
-            self.lock.acquire()
-            self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
-            result = self.value
-            self.lock.release()
+            with self.lock:      # a failing update must release it, too
+                self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
+                result = self.value
         else:
             self.value = update(state, scope, self.value, path, to, arrayErrCode, mapErrCode, fcnName, pos)
             result = self.value
@@ -576,29 +571,31 @@ class Pool(PersistentStorageItem):
         head, tail = path[0], path[1:]
 
         if self.shared:
-            self.locklock.acquire()
-            if head in self.locks:
-                self.locks[head].acquire()
-            else:
-                self.locks[head] = threading.Lock()
-                self.locks[head].acquire()
-            self.locklock.release()
-
-            if head not in self.value:
-                self.value[head] = init
-            self.value[head] = update(state, scope, self.value[head], tail, to, arrayErrCode, mapErrCode, fcnName, pos)
-
-            result = self.value[head]
-            self.locks[head].release()
+            with self._lock(head):      # a failing update must release it, too
+                result = update(state, scope, self.value.get(head, init), tail, to, arrayErrCode, mapErrCode, fcnName, pos)
+                self.value[head] = result
 
         else:
-            if head not in self.value:
-                self.value[head] = init
-            self.value[head] = update(state, scope, self.value[head], tail, to, arrayErrCode, mapErrCode, fcnName, pos)
-            result = self.value[head]
+            result = update(state, scope, self.value.get(head, init), tail, to, arrayErrCode, mapErrCode, fcnName, pos)
+            self.value[head] = result
 
         return result
 
+    def _lock(self, item):
+        """The lock of one item of a shared pool (created without ever holding another item's lock)."""
+        with self.locklock:
+            if item not in self.locks:
+                self.locks[item] = threading.Lock()
+            return self.locks[item]
+
+    def remove(self, item):
+        """Remove an item from the pool, if it exists (not in the middle of another engine's update of it)."""
+        if self.shared:
+            with self._lock(item):
+                self.value.pop(item, None)
+        else:
+            self.value.pop(item, None)
+
     def maybeSaveBackup(self):
         if self.rollback:
             self.oldvalue = dict(self.value)
-- 
2.43.0


From f2249d095960fcd9a171bf326e7313b95cbc5df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:17 +0000
Subject: [PATCH 34/85] fix: try does not absorb timeouts and passes on other
 errors that do not match its filter unchanged

---
 titus/genpy.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index fa2ecba..88cc221 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1297,8 +1297,10 @@ def tryCatch(state, scope, exprs, filter):
     """
     try:
         return exprs(state, scope)
+    except PFATimeoutException:
+        raise
     except Exception as err:
-        if filter is None or err.message in filter or err.code in filter:
+        if filter is None or getattr(err, "message", None) in filter or getattr(err, "code", None) in filter:
             return None
         else:
             raise err
-- 
2.43.0


From 80311b2f2416e8fb33d11985a661abc845c301dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:21 +0000
Subject: [PATCH 35/85] fix: timeout.begin, timeout.action and timeout.end are
 honoured, options that are not integers are refused, merge can check its time

---
 titus/genpy.py   |  6 ++++--
 titus/options.py | 10 ++++++----
 2 files changed, 10 insertions(+), 6 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 88cc221..6219e2f 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -207,7 +207,7 @@ class GeneratePython(titus.pfaast.Task):
             if len(begin) > 0:
                 out.append("""
     def begin(self):
-        state = ExecutionState(self.options, self.rand, 'action', self.parser)
+        state = ExecutionState(self.options, self.rand, 'begin', self.parser)
         scope = DynamicScope(None)
         scope.let({'name': self.config.name, 'instance': self.instance, 'metadata': self.config.metadata})
         if self.config.version is not None:
@@ -281,7 +281,7 @@ class GeneratePython(titus.pfaast.Task):
                 
                 out.append("""
     def end(self):
-        state = ExecutionState(self.options, self.rand, 'action', self.parser)
+        state = ExecutionState(self.options, self.rand, 'end', self.parser)
         scope = DynamicScope(None)
         scope.let({'name': self.config.name, 'instance': self.instance, 'metadata': self.config.metadata, 'actionsStarted': self.actionsStarted, 'actionsFinished': self.actionsFinished})
         if self.config.version is not None:
@@ -491,6 +491,8 @@ class ExecutionState(object):
             self.timeout = options.timeout_action
         elif routine == "end":
             self.timeout = options.timeout_end
+        else:   # merge
+            self.timeout = options.timeout
 
         self.startTime = time.time()
 
diff --git a/titus/options.py b/titus/options.py
index 38030e9..8315708 100644
--- a/titus/options.py
+++ b/titus/options.py
@@ -36,13 +36,15 @@ class EngineOptions(object):
         def longOpt(name, default):
             out = combinedOptions.get(name, default)
             try:
+                if isinstance(out, bool) or (isinstance(out, float) and out != int(out)):
+                    raise ValueError
                 return int(out)
-            except ValueError:
+            except (ValueError, TypeError, OverflowError):
                 raise PFAInitializationException(name + " must be an integral number")
 
         self.timeout = longOpt("timeout", -1)
-        self.timeout_begin = longOpt("timeout", self.timeout)
-        self.timeout_action = longOpt("timeout", self.timeout)
-        self.timeout_end = longOpt("timeout", self.timeout)
+        self.timeout_begin = longOpt("timeout.begin", self.timeout)
+        self.timeout_action = longOpt("timeout.action", self.timeout)
+        self.timeout_end = longOpt("timeout.end", self.timeout)
 
         # ...
-- 
2.43.0


From b2f2b0a03a5a9cc790563c69b1bca836e5db614e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:08:47 +0000
Subject: [PATCH 36/85] fix: emit can be passed as a function reference

---
 titus/genpy.py  | 2 ++
 titus/pfaast.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/titus/genpy.py b/titus/genpy.py
index 6219e2f..5dec0ff 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1322,6 +1322,8 @@ class FakeEmitForExecution(titus.fcn.Fcn):
     """Placeholder so that the ``emit`` function looks like any other function to PFA."""
     def __init__(self, engine):
         self.engine = engine
+    def __call__(self, state, scope, pos, paramTypes, x):
+        return self.engine.emit(x)
 
 def genericEmit(x):
     """Generic emit function for use in PFAEngine.emit.
diff --git a/titus/pfaast.py b/titus/pfaast.py
index 102d7c1..b796f3b 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -346,6 +346,8 @@ class UserFcn(Fcn):
 class EmitFcn(Fcn):
     """The special ``emit`` function."""
 
+    name = "emit"
+
     def __init__(self, outputType):
         """:type outputType: titus.datatype.AvroType
         :param outputType: output type of the PFA document, which is also the signature of the ``emit`` function
-- 
2.43.0


From 867b0508f83c39a5c275fc07739cde3df1027ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 37/85] fix: calls in the object of attr and attr-to and in the
 init of pool-to are part of the call graph

---
 titus/pfaast.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index b796f3b..adcdd04 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -3264,6 +3264,7 @@ class AttrGet(Expression, HasPath):
             raise PFASemanticException("expression is not an array, map, or record", self.pos)
 
         retType, calls, pathResult = self.walkPath(exprContext.retType, task, symbolTable, functionTable, engineOptions, version)
+        calls = calls.union(exprContext.calls)
         context = self.Context(retType, calls.union(set([self.desc])), exprResult, exprContext.retType, pathResult, self.pos)
         return context, task(context, engineOptions)
 
@@ -3376,6 +3377,7 @@ class AttrTo(Expression, HasPath):
             raise PFASemanticException("expression is not an array, map, or record", self.pos)
 
         setType, calls, pathResult = self.walkPath(exprContext.retType, task, symbolTable, functionTable, engineOptions, version)
+        calls = calls.union(exprContext.calls)
 
         toContext, toResult = self.to.walk(task, symbolTable, functionTable, engineOptions, version)
 
@@ -3853,6 +3855,7 @@ class PoolTo(Expression, HasPath):
         toContext, toResult = self.to.walk(task, symbolTable, functionTable, engineOptions, version)
 
         initContext, initResult = self.init.walk(task, symbolTable, functionTable, engineOptions, version)
+        calls = calls.union(initContext.calls)
 
         if not poolType.accepts(initContext.retType):
             raise PFASemanticException("pool has type {0} but attempting to init with type {1}".format(ts(poolType), ts(initContext.retType)), self.pos)
-- 
2.43.0


From e3bf6b7a22e5891cd141cf0c5ef24462576ed529 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:12 +0000
Subject: [PATCH 38/85] fix: updates inside cell-to and pool-to functions are
 refused however they are reached (pool-del, function references and calls by
 name were overlooked)

---
 titus/genpy.py  | 21 ++++++---------------
 titus/pfaast.py |  3 ++-
 2 files changed, 8 insertions(+), 16 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 5dec0ff..dcfa4a8 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1346,25 +1346,16 @@ def checkForDeadlock(engineConfig, engine):
                 raise PFAInitializationException("{0} references function \"{1}\", which has side-effects".format(slotTo.desc, slotTo.to.name))
     engineConfig.collect(WithFcnRef())
 
-    class CellToOrPoolTo(object):
-        def isDefinedAt(self, ast):
-            return isinstance(ast, (CellTo, PoolTo))
-        def __call__(self, slotTo):
-            raise PFAInitializationException("inline function in cell-to or pool-to invokes a " + slotTo.desc)
-
-    class SideEffectFunction(object):
-        def isDefinedAt(self, ast):
-            return isinstance(ast, Call) and engine.hasSideEffects(ast.name)
-        def __call__(self, call):
-            raise PFAInitializationException("inline function in cell-to or pool-to invokes function \"{0}\", which has side-effects".format(call.name))
-
     class WithFcnDef(object):
         def isDefinedAt(self, ast):
             return isinstance(ast, (CellTo, PoolTo)) and isinstance(ast.to, FcnDef)
         def __call__(self, slotTo):
-            for x in slotTo.to.body:
-                x.collect(CellToOrPoolTo())
-                x.collect(SideEffectFunction())
+            # everything that the function's body mentions, including function references and calls by name
+            for name in slotTo.to.calls:
+                if name in (CellTo.desc, PoolTo.desc, PoolDel.desc):
+                    raise PFAInitializationException("inline function in cell-to or pool-to invokes a " + name)
+                if engine.hasSideEffects(name):
+                    raise PFAInitializationException("inline function in cell-to or pool-to invokes function \"{0}\", which has side-effects".format(name))
     engineConfig.collect(WithFcnDef())
 
 class PFAEngine(object):
diff --git a/titus/pfaast.py b/titus/pfaast.py
index adcdd04..0d58033 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1521,7 +1521,8 @@ class FcnDef(Argument):
         if not isinstance(inferredRetType, ExceptionType) and not self.ret.accepts(inferredRetType):
             raise PFASemanticException("function's inferred return type is {0} but its declared return type is {1}".format(ts(results[-1][0].retType), ts(self.ret)), self.pos)
 
-        context = self.Context(FcnType([list(t.values())[0] for t in self.params], self.ret), set(titus.util.flatten([x[0].calls for x in results])), self.paramNames, self.paramsDict, self.ret, scope.inThisScope, [x[1] for x in results])
+        self.calls = set(titus.util.flatten([x[0].calls for x in results]))
+        context = self.Context(FcnType([list(t.values())[0] for t in self.params], self.ret), self.calls, self.paramNames, self.paramsDict, self.ret, scope.inThisScope, [x[1] for x in results])
         return context, task(context, engineOptions)
 
     def jsonNode(self, lineNumbers, memo):
-- 
2.43.0


From 647a03564eac06764994ae9b6fe441e75baca8b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:03 +0000
Subject: [PATCH 39/85] fix: pack and unpack formats must match as a whole
 ("int64" was read as a 32-bit int)

---
 titus/pfaast.py | 36 ++++++++++++++++++------------------
 1 file changed, 18 insertions(+), 18 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 0d58033..e94358c 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -5675,28 +5675,28 @@ class BinaryFormatter(object):
         :return: format declarer
         """
 
-        if re.match(BinaryFormatter.formatPad, f):             return BinaryFormatter.DeclarePad(value)
-        elif re.match(BinaryFormatter.formatBoolean, f):       return BinaryFormatter.DeclareBoolean(value)
-        elif re.match(BinaryFormatter.formatByte, f):          return BinaryFormatter.DeclareByte(value, False)
-        elif re.match(BinaryFormatter.formatUnsignedByte, f):  return BinaryFormatter.DeclareByte(value, True)
-        elif re.match(BinaryFormatter.formatShort, f):         return BinaryFormatter.DeclareShort(value, "<" in f or "little" in f, False)
-        elif re.match(BinaryFormatter.formatUnsignedShort, f): return BinaryFormatter.DeclareShort(value, "<" in f or "little" in f, True)
-        elif re.match(BinaryFormatter.formatInt, f):           return BinaryFormatter.DeclareInt(value, "<" in f or "little" in f, False)
-        elif re.match(BinaryFormatter.formatUnsignedInt, f):   return BinaryFormatter.DeclareInt(value, "<" in f or "little" in f, True)
-        elif re.match(BinaryFormatter.formatLong, f):          return BinaryFormatter.DeclareLong(value, "<" in f or "little" in f, False)
-        elif re.match(BinaryFormatter.formatUnsignedLong, f):  return BinaryFormatter.DeclareLong(value, "<" in f or "little" in f, True)
-        elif re.match(BinaryFormatter.formatFloat, f):         return BinaryFormatter.DeclareFloat(value, "<" in f or "little" in f)
-        elif re.match(BinaryFormatter.formatDouble, f):        return BinaryFormatter.DeclareDouble(value, "<" in f or "little" in f)
-        elif re.match(BinaryFormatter.formatRawSize, f):       return BinaryFormatter.DeclareRawSize(value, int(re.match(BinaryFormatter.formatRawSize, f).group(1)))
-        elif re.match(BinaryFormatter.formatToNull, f):        return BinaryFormatter.DeclareToNull(value)
-        elif re.match(BinaryFormatter.formatPrefixed, f):      return BinaryFormatter.DeclarePrefixed(value)
-        elif re.match(BinaryFormatter.formatRaw, f):
+        if re.fullmatch(BinaryFormatter.formatPad, f):             return BinaryFormatter.DeclarePad(value)
+        elif re.fullmatch(BinaryFormatter.formatBoolean, f):       return BinaryFormatter.DeclareBoolean(value)
+        elif re.fullmatch(BinaryFormatter.formatByte, f):          return BinaryFormatter.DeclareByte(value, False)
+        elif re.fullmatch(BinaryFormatter.formatUnsignedByte, f):  return BinaryFormatter.DeclareByte(value, True)
+        elif re.fullmatch(BinaryFormatter.formatShort, f):         return BinaryFormatter.DeclareShort(value, "<" in f or "little" in f, False)
+        elif re.fullmatch(BinaryFormatter.formatUnsignedShort, f): return BinaryFormatter.DeclareShort(value, "<" in f or "little" in f, True)
+        elif re.fullmatch(BinaryFormatter.formatInt, f):           return BinaryFormatter.DeclareInt(value, "<" in f or "little" in f, False)
+        elif re.fullmatch(BinaryFormatter.formatUnsignedInt, f):   return BinaryFormatter.DeclareInt(value, "<" in f or "little" in f, True)
+        elif re.fullmatch(BinaryFormatter.formatLong, f):          return BinaryFormatter.DeclareLong(value, "<" in f or "little" in f, False)
+        elif re.fullmatch(BinaryFormatter.formatUnsignedLong, f):  return BinaryFormatter.DeclareLong(value, "<" in f or "little" in f, True)
+        elif re.fullmatch(BinaryFormatter.formatFloat, f):         return BinaryFormatter.DeclareFloat(value, "<" in f or "little" in f)
+        elif re.fullmatch(BinaryFormatter.formatDouble, f):        return BinaryFormatter.DeclareDouble(value, "<" in f or "little" in f)
+        elif re.fullmatch(BinaryFormatter.formatRawSize, f):       return BinaryFormatter.DeclareRawSize(value, int(re.fullmatch(BinaryFormatter.formatRawSize, f).group(1)))
+        elif re.fullmatch(BinaryFormatter.formatToNull, f):        return BinaryFormatter.DeclareToNull(value)
+        elif re.fullmatch(BinaryFormatter.formatPrefixed, f):      return BinaryFormatter.DeclarePrefixed(value)
+        elif re.fullmatch(BinaryFormatter.formatRaw, f):
             if output:
                 return BinaryFormatter.DeclareRaw(value)
             else:
-                raise PFASemanticException("cannot read from unsized \"raw\" in binary formatter", self.pos)
+                raise PFASemanticException("cannot read from unsized \"raw\" in binary formatter", pos)
         else:
-            raise PFASemanticException("unrecognized formatter \"{0}\" found in unpack's \"format\"".format(f), self.pos)
+            raise PFASemanticException("unrecognized formatter \"{0}\" found in unpack's \"format\"".format(f), pos)
 
 @titus.util.case
 class Pack(Expression):
-- 
2.43.0


From 7bec94803acdb926944706426c03638a611dcb7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:20 +0000
Subject: [PATCH 40/85] fix: unpacking an unsigned long yields a double, as its
 type says

---
 titus/genpy.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/genpy.py b/titus/genpy.py
index dcfa4a8..0091a45 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1209,6 +1209,8 @@ def unpackOne(byte_s, scope, s, f, l):
         if len(this) != l:
             raise MisalignedPacking()
         value, = struct.unpack(f, this)
+        if "Q" in f:
+            value = float(value)   # unsigned long is a double in Avro
         scope.let({s: value})
 
     return that
-- 
2.43.0


From 8c102ab7bf52d084299c0f662e4001bb8fb41e3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:02:08 +0000
Subject: [PATCH 41/85] fix: try around a null expression has type null (it
 failed to load)

---
 titus/pfaast.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index e94358c..1218ed0 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -6167,7 +6167,7 @@ class Try(Expression):
         results = [x.walk(task, scope, functionTable, engineOptions, version) for x in self.exprs]
 
         exprType = results[-1][0].retType
-        if isinstance(exprType, ExceptionType):
+        if isinstance(exprType, (ExceptionType, AvroNull)):
             exprType = AvroNull()
             inferredType = AvroNull()
         elif isinstance(exprType, AvroUnion):
-- 
2.43.0


From 3d9acd0faa84eadc48bfaf53d7a41315035f0f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:10:40 +0000
Subject: [PATCH 42/85] fix: a snapshot can hold bytes, and its cells and pools
 are embedded whatever they were read from

---
 titus/genpy.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index 0091a45..f821b41 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -1638,8 +1638,8 @@ class PFAEngine(object):
         Note that you can call ``toJson`` on the ``EngineConfig`` to get a string that can be written to a PFA file.
         """
 
-        newCells = dict((k, AstCell(self.config.cells[k].avroPlaceholder, json.dumps(v.value), v.shared, v.rollback, v.source)) for k, v in list(self.cells.items()))
-        newPools = dict((k, AstPool(self.config.pools[k].avroPlaceholder, dict((kk, json.dumps(vv)) for kk, vv in list(v.value.items())), v.shared, v.rollback, v.source)) for k, v in list(self.pools.items()))
+        newCells = dict((k, AstCell(self.config.cells[k].avroPlaceholder, json.dumps(v.value, default=titus.util.bytesToString), v.shared, v.rollback, titus.pfaast.CellPoolSource.EMBEDDED)) for k, v in list(self.cells.items()))
+        newPools = dict((k, AstPool(self.config.pools[k].avroPlaceholder, dict((kk, json.dumps(vv, default=titus.util.bytesToString)) for kk, vv in list(v.value.items())), v.shared, v.rollback, titus.pfaast.CellPoolSource.EMBEDDED)) for k, v in list(self.pools.items()))
 
         return EngineConfig(
             self.config.name,
-- 
2.43.0


From 4775375e05e9af8b1f58a88e57061497b2f26ef6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:13:14 +0000
Subject: [PATCH 43/85] fix: pools can be read from JSON files, and a cell or
 pool read from a file is written back as such

---
 titus/pfaast.py | 6 +++---
 titus/reader.py | 4 +++-
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index 1218ed0..a562403 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1198,7 +1198,7 @@ class Cell(Ast):
         """
         out = self.startDict(lineNumbers)
         out["type"] = self.avroPlaceholder.jsonNode(memo)
-        out["init"] = self.initJsonNode
+        out["init"] = self.init.url if hasattr(self.init, "url") else self.initJsonNode
         out["shared"] = self.shared
         out["rollback"] = self.rollback
         if self.source != CellPoolSource.EMBEDDED:
@@ -1233,7 +1233,7 @@ class Pool(Ast):
         if not isinstance(avroPlaceholder, (AvroPlaceholder, AvroType)):
             raise PFASyntaxException("\"avroPlaceholder\" must be an AvroPlaceholder or AvroType", pos)
 
-        if not isinstance(init, dict) or not all(isinstance(x, str) or x is None for x in list(init.values())):
+        if not callable(init) and (not isinstance(init, dict) or not all(isinstance(x, str) or x is None for x in list(init.values()))):
             raise PFASyntaxException("\"init\" must be a string or callable", pos)
 
         if not isinstance(shared, bool):
@@ -1298,7 +1298,7 @@ class Pool(Ast):
         """
         out = self.startDict(lineNumbers)
         out["type"] = self.avroPlaceholder.jsonNode(memo)
-        out["init"] = self.initJsonNode
+        out["init"] = self.init.url if hasattr(self.init, "url") else self.initJsonNode
         out["shared"] = self.shared
         out["rollback"] = self.rollback
         if self.source != CellPoolSource.EMBEDDED:
diff --git a/titus/reader.py b/titus/reader.py
index 56e15b5..5477f60 100644
--- a/titus/reader.py
+++ b/titus/reader.py
@@ -912,6 +912,7 @@ def _readCell(data, dot, avroTypeBuilder):
                         return urllib.request.urlopen(url).read()
                     else:
                         return open(url).read()
+                getit.url = url
                 _init = getit
                 
             elif _source == "embedded":
@@ -949,7 +950,7 @@ def _readPool(data, dot, avroTypeBuilder):
         keys = set(x for x in list(data.keys()) if x != "@")
         for key in keys:
             if key == "type": _avroType = _readAvroPlaceholder(data[key], dot + " -> " + key, avroTypeBuilder)
-            elif key == "init": _init = _readJsonToStringMap(data[key], dot + " -> " + key)
+            elif key == "init": _init = _readJsonToStringMap(data[key], dot + " -> " + key) if data.get("source", "embedded") == "embedded" else _readJsonToString(data[key], dot + " -> " + key)
             elif key == "shared": _shared = _readBoolean(data[key], dot + " -> " + key)
             elif key == "rollback": _rollback = _readBoolean(data[key], dot + " -> " + key)
             elif key == "source": _source = _readString(data[key], dot + " -> " + key)
@@ -975,6 +976,7 @@ def _readPool(data, dot, avroTypeBuilder):
                         return urllib.request.urlopen(url).read()
                     else:
                         return open(url).read()
+                getit.url = url
                 _init = getit
                 
             elif _source == "embedded":
-- 
2.43.0


From 30d66814d4342474a324ee732ab0f120f2941341 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 44/85] fix: time.isWorkHours is false on weekends

---
 titus/lib/pfatime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/pfatime.py b/titus/lib/pfatime.py
index 0aa4859..947c337 100644
--- a/titus/lib/pfatime.py
+++ b/titus/lib/pfatime.py
@@ -239,5 +239,5 @@ class IsWorkHours(LibFcn):
         dt = tz(datetime.datetime.fromtimestamp(tscheck(ts, self.errcodeBase + 1, self.name, pos), UTC()), zone, self.errcodeBase + 0, self.name, pos)
         day = dt.weekday()
         hour = dt.hour
-        return (day != 5 or day != 6) and (hour >= 9 and hour < 17)
+        return (day != 5 and day != 6) and (hour >= 9 and hour < 17)
 provide(IsWorkHours())
-- 
2.43.0


From 554625037541a06b17d145b99d377497a080d7ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:14:42 +0000
Subject: [PATCH 45/85] fix: time.makeTimestamp returns a double (it has
 milliseconds and exceeds an int after 2038)

---
 titus/lib/pfatime.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/pfatime.py b/titus/lib/pfatime.py
index 947c337..736f802 100644
--- a/titus/lib/pfatime.py
+++ b/titus/lib/pfatime.py
@@ -127,7 +127,7 @@ provide(SecondOfMinute())
 
 class MakeTimestamp(LibFcn):
     name = prefix + "makeTimestamp"
-    sig = Sig([{"year": P.Int()}, {"month": P.Int()}, {"day": P.Int()}, {"hour": P.Int()}, {"minute": P.Int()}, {"second": P.Int()}, {"millisecond": P.Int()}, {"zone": P.String()}], P.Int())
+    sig = Sig([{"year": P.Int()}, {"month": P.Int()}, {"day": P.Int()}, {"hour": P.Int()}, {"minute": P.Int()}, {"second": P.Int()}, {"millisecond": P.Int()}, {"zone": P.String()}], P.Double())
     epoch = datetime.datetime(1970, 1, 1, 0, 0, 0, 0, UTC())
     errcodeBase = 40080
     def __call__(self, state, scope, pos, paramTypes, year, month, day, hour, minute, second, millisecond, zone):
-- 
2.43.0


From c4e97789b14dfa658b17c782d948755247a08c5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:06 +0000
Subject: [PATCH 46/85] fix: times whose calendar date falls outside the
 supported years in their zone give the documented error

---
 titus/lib/pfatime.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/titus/lib/pfatime.py b/titus/lib/pfatime.py
index 736f802..1c58e87 100644
--- a/titus/lib/pfatime.py
+++ b/titus/lib/pfatime.py
@@ -55,6 +55,8 @@ def tz(dt, zone, code, name, pos):
             return dt.astimezone(pytz().timezone(zone))
         except pytz().exceptions.UnknownTimeZoneError:
             raise PFARuntimeException("unrecognized timezone string", code, name, pos)
+        except OverflowError:
+            raise PFARuntimeException("timestamp out of range", code + 1, name, pos)
 
 def tscheck(ts, code, name, pos):
     if math.isnan(ts) or ts < -62135596800 or ts > 253402300799:
@@ -137,12 +139,11 @@ class MakeTimestamp(LibFcn):
                 dt = datetime.datetime(year, month, day, hour, minute, second, microsecond, UTC())
             else:
                 dt = pytz().timezone(zone).localize(datetime.datetime(year, month, day, hour, minute, second, microsecond))
+            return (dt.astimezone(UTC()) - self.epoch).total_seconds()
         except pytz().exceptions.UnknownTimeZoneError:
             raise PFARuntimeException("unrecognized timezone string", self.errcodeBase + 0, self.name, pos)
-        except ValueError:
+        except (ValueError, OverflowError):
             raise PFARuntimeException("timestamp undefined for given parameters", self.errcodeBase + 1, self.name, pos)
-        else:
-            return (dt.astimezone(UTC()) - self.epoch).total_seconds()
 provide(MakeTimestamp())
 
 class IsSecondOfMinute(LibFcn):
-- 
2.43.0


From ac2b543531392be3bb9e40a0b67c6037559dddbd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:16 +0000
Subject: [PATCH 47/85] fix: rand.sample, rand.histogram and rand.string at the
 edges of their arguments

---
 titus/lib/rand.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/titus/lib/rand.py b/titus/lib/rand.py
index 892823d..3a3e58f 100644
--- a/titus/lib/rand.py
+++ b/titus/lib/rand.py
@@ -114,7 +114,7 @@ class RandomSample(LibFcn):
             raise PFARuntimeException("population must not be empty", self.errcodeBase + 0, self.name, pos)
         if len(population) < size:
             raise PFARuntimeException("population smaller than requested subsample", self.errcodeBase + 1, self.name, pos)
-        return state.rand.sample(population, size)
+        return state.rand.sample(population, max(size, 0))
 provide(RandomSample())
         
 ########################################################### deviates from a histogram
@@ -133,12 +133,15 @@ class RandomHistogram(LibFcn):
                 raise PFARuntimeException("distribution must be non-negative", self.errcodeBase + 2, self.name, pos)
             cumulativeSum.append(cumulativeSum[-1] + x)
         total = cumulativeSum[-1]
+        if math.isinf(total):
+            raise PFARuntimeException("distribution must be finite", self.errcodeBase + 1, self.name, pos)
         if total == 0.0:
             raise PFARuntimeException("distribution must be non-empty", self.errcodeBase + 0, self.name, pos)
         position = rand.uniform(0.0, total)
         for i, y in enumerate(cumulativeSum):
             if position < y:
                 return i - 1
+        return max(i for i, x in enumerate(distribution) if x > 0)  # position can round up to total
     def __call__(self, state, scope, pos, paramTypes, distribution):
         if isinstance(paramTypes[-1], dict) and paramTypes[-1].get("type") == "record":
             probs = [x["prob"] for x in distribution]
@@ -159,7 +162,7 @@ class RandomString(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, size, *args):
         if size <= 0: raise PFARuntimeException("size must be positive", self.errcodeBase + 0, self.name, pos)
         if len(args) == 0:
-            return "".join(chr(state.rand.randint(1, 0xD800)) for x in range(size))
+            return "".join(chr(state.rand.randint(1, 0xD800 - 1)) for x in range(size))
         elif len(args) == 1:
             if len(args[0]) == 0:
                 raise PFARuntimeException("population must be non-empty", self.errcodeBase + 3, self.name, pos)
-- 
2.43.0


From e5cef8f7431f9881132f7503fc8d93e2644ba351 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:16 +0000
Subject: [PATCH 48/85] fix: la functions on ragged or singular matrices and
 maps with missing rows

---
 titus/lib/la.py | 18 ++++++++++++++----
 1 file changed, 14 insertions(+), 4 deletions(-)

diff --git a/titus/lib/la.py b/titus/lib/la.py
index 4e1a0dc..db68ad5 100644
--- a/titus/lib/la.py
+++ b/titus/lib/la.py
@@ -72,12 +72,18 @@ def rowVectorToMap(x, keys):
 def matrixToMaps(x, rows, cols):
     return dict((row, dict(list(zip(cols, xi)))) for row, xi in zip(rows, x.tolist()))
 
+def inverse(x):
+    try:
+        return x.I
+    except np().linalg.LinAlgError:   # singular: pseudoinverse, as for non-square matrices
+        return np().linalg.pinv(x)
+
 def raggedArray(x):
     collens = list(map(len, x))
     return max(collens) != min(collens)
 
 def raggedMap(x):
-    return len(set(len(xi) for xi in list(x.values()))) != 1
+    return len(set(frozenset(xi.keys()) for xi in list(x.values()))) != 1
 
 class MapApply(LibFcn):
     name = prefix + "map"
@@ -207,6 +213,8 @@ class Dot(LibFcn):
                 # array matrix-matrix case
                 bad = any(any(math.isnan(z) or math.isinf(z) for z in row) for row in x) or \
                       any(any(math.isnan(z) or math.isinf(z) for z in row) for row in y)
+                if any(len(m) > 0 and raggedArray(m) for m in (x, y)):
+                    raise PFARuntimeException("misaligned matrices", self.errcodeBase + 0, self.name, pos)
                 xmat = arraysToMatrix(x)
                 ymat = arraysToMatrix(y)
                 if xmat.shape[0] == 0 or xmat.shape[1] == 0 or ymat.shape[0] == 0 or ymat.shape[1] == 0:
@@ -221,6 +229,8 @@ class Dot(LibFcn):
                 # array matrix-vector case
                 bad = any(any(math.isnan(z) or math.isinf(z) for z in row) for row in x) or \
                       any(math.isnan(z) or math.isinf(z) for z in y)
+                if len(x) > 0 and raggedArray(x):
+                    raise PFARuntimeException("misaligned matrices", self.errcodeBase + 0, self.name, pos)
                 xmat = arraysToMatrix(x)
                 ymat = arrayToRowVector(y)
                 if xmat.shape[0] == 0 or xmat.shape[1] == 0 or ymat.shape[0] == 0 or ymat.shape[1] == 0:
@@ -304,7 +314,7 @@ class Inverse(LibFcn):
                 raise PFARuntimeException("too few rows/cols", self.errcodeBase + 0, self.name, pos)
             if raggedArray(x):
                 raise PFARuntimeException("ragged columns", self.errcodeBase + 1, self.name, pos)
-            return matrixToArrays(arraysToMatrix(x).I)
+            return matrixToArrays(inverse(arraysToMatrix(x)))
 
         elif isinstance(x, dict) and all(isinstance(x[i], dict) for i in list(x.keys())):
             rows = list(rowKeys(x))
@@ -312,7 +322,7 @@ class Inverse(LibFcn):
             if len(rows) < 1 or len(cols) < 1:
                 raise PFARuntimeException("too few rows/cols", self.errcodeBase + 0, self.name, pos)
             xmat = mapsToMatrix(x, rows, cols)
-            return matrixToMaps(xmat.I, cols, rows)
+            return matrixToMaps(inverse(xmat), cols, rows)
 
 provide(Inverse())
 
@@ -334,7 +344,7 @@ class Trace(LibFcn):
 
         elif isinstance(x, dict) and all(isinstance(x[i], dict) for i in list(x.keys())):
             keys = rowKeys(x).intersection(colKeys(x))
-            return sum(x[i][i] for i in keys)
+            return sum(x[i].get(i, 0.0) for i in keys)
 
 provide(Trace())
 
-- 
2.43.0


From 6c4f803a767dd7e4f827cb819a9760a23f20a130 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:16 +0000
Subject: [PATCH 49/85] fix: link functions of large arguments overflow to
 their limits

---
 titus/lib/link.py | 26 ++++++++++++--------------
 1 file changed, 12 insertions(+), 14 deletions(-)

diff --git a/titus/lib/link.py b/titus/lib/link.py
index 5fb1311..d5fd4e9 100644
--- a/titus/lib/link.py
+++ b/titus/lib/link.py
@@ -36,6 +36,12 @@ def provide(fcn):
 
 prefix = "m.link."
 
+def exp(x):
+    try:
+        return math.exp(x)
+    except OverflowError:
+        return float("inf")
+
 #################################################################### 
 
 class SoftMax(LibFcn):
@@ -48,21 +54,13 @@ class SoftMax(LibFcn):
             raise PFARuntimeException("empty input", self.errcodeBase + 0, self.name, pos)
         if paramTypes[0]["type"] == "map":
             xx = x.copy()
-            tmp = list(map(abs, list(xx.values())))
-            if list(xx.values())[tmp.index(max(tmp))] >= 0:
-                m = max(xx.values())
-            else:
-                m = min(xx.values())
+            m = max(xx.values())
             denom = sum([math.exp(v - m) for v in list(x.values())])
             for key in list(x.keys()):
                 xx[key] = float(math.exp(xx[key] - m)/denom)
             return xx
         else:
-            tmp = list(map(abs, x))
-            if x[tmp.index(max(tmp))] >= 0:
-                m = max(x)
-            else:
-                m = min(x)
+            m = max(x)
             denom = sum([math.exp(v - m) for v in x])
             return [float(math.exp(val - m)/denom) for val in x]
 provide(SoftMax())
@@ -88,7 +86,7 @@ class Logit(LibFcn):
                  Sig([{"x": P.Double()}], P.Double())])
     errcodeBase = 25010
     def __call__(self, state, scope, pos, paramTypes, x):
-        return unwrapForNorm(x, lambda y: 1./(1. + math.exp(-y)))
+        return unwrapForNorm(x, lambda y: 1./(1. + exp(-y)))
 provide(Logit())
 
 class Probit(LibFcn):
@@ -108,7 +106,7 @@ class CLoglog(LibFcn):
                  Sig([{"x": P.Double()}], P.Double())])
     errcodeBase = 25030
     def __call__(self, state, scope, pos, paramTypes, x):
-        return unwrapForNorm(x, lambda y: 1. - math.exp(-math.exp(y)))
+        return unwrapForNorm(x, lambda y: 1. - exp(-exp(y)))
 provide(CLoglog())
 
 class LogLog(LibFcn):
@@ -118,7 +116,7 @@ class LogLog(LibFcn):
                  Sig([{"x": P.Double()}], P.Double())])
     errcodeBase = 25040
     def __call__(self, state, scope, pos, paramTypes, x):
-        return unwrapForNorm(x, lambda y: math.exp(-math.exp(y)))
+        return unwrapForNorm(x, lambda y: exp(-exp(y)))
 provide(LogLog())
 
 class Cauchit(LibFcn):
@@ -138,7 +136,7 @@ class Softplus(LibFcn):
                  Sig([{"x": P.Double()}], P.Double())])
     errcodeBase = 25060
     def __call__(self, state, scope, pos, paramTypes, x):
-        return unwrapForNorm(x, lambda y: math.log(1.0 + math.exp(y)))
+        return unwrapForNorm(x, lambda y: y if math.isinf(exp(y)) else math.log(1.0 + exp(y)))
 provide(Softplus())
 
 class ReLu(LibFcn):
-- 
2.43.0


From 5c215a8e759bb18a9e87003c5d08c35337ea4c66 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:16 +0000
Subject: [PATCH 50/85] fix: interp.bin of infinite ranges and bins beyond the
 range of an int

---
 titus/lib/interp.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/titus/lib/interp.py b/titus/lib/interp.py
index 37a7fe7..177ada2 100644
--- a/titus/lib/interp.py
+++ b/titus/lib/interp.py
@@ -27,6 +27,7 @@ from titus.datatype import *
 from titus.errors import *
 from titus.util import callfcn
 from titus.util import div
+from titus.lib.core import INT_MIN_VALUE, INT_MAX_VALUE
 import titus.P as P
 
 def np():
@@ -47,18 +48,17 @@ class Bin(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, x, *args):
         if len(args) == 3:
             numbins, low, high = args
-            if low >= high or math.isnan(low) or math.isnan(high):
+            if low >= high or math.isnan(low) or math.isnan(high) or math.isinf(low) or math.isinf(high):
                 raise PFARuntimeException("bad histogram range", self.errcodeBase + 0, self.name, pos)
             if numbins < 1:
                 raise PFARuntimeException("bad histogram scale", self.errcodeBase + 1, self.name, pos)
             if math.isnan(x) or x < low or x >= high:
                 raise PFARuntimeException("x out of range", self.errcodeBase + 2, self.name, pos)
 
+            if math.isinf(high - low):
+                x, low, high = 0.5*x, 0.5*low, 0.5*high
             out = int(math.floor(numbins * div((x - low), (high - low))))
-
-            if out < 0 or out >= numbins:
-                raise PFARuntimeException("x out of range", self.errcodeBase + 2, self.name, pos)
-            return out
+            return min(out, numbins - 1)   # the division can round up to the end of the range
         else:
             origin, width = args
             if math.isnan(origin) or math.isinf(origin):
@@ -68,7 +68,10 @@ class Bin(LibFcn):
             if math.isnan(x) or math.isinf(x):
                 raise PFARuntimeException("x out of range", self.errcodeBase + 2, self.name, pos)
             else:
-                return int(math.floor(div((x - origin), width)))
+                out = div((x - origin), width)
+                if not INT_MIN_VALUE <= out < INT_MAX_VALUE + 1:
+                    raise PFARuntimeException("x out of range", self.errcodeBase + 2, self.name, pos)
+                return int(math.floor(out))
 provide(Bin())
     
 class Nearest(LibFcn):
-- 
2.43.0


From acfff1a61004339001cf2c4d63885167da684db6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:16 +0000
Subject: [PATCH 51/85] fix: m.kernel.rbf of distant vectors does not overflow

---
 titus/lib/kernel.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/titus/lib/kernel.py b/titus/lib/kernel.py
index 5eea3c0..c26a4c5 100644
--- a/titus/lib/kernel.py
+++ b/titus/lib/kernel.py
@@ -53,8 +53,11 @@ class RBF(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, x, y, gamma):
         if len(x) != len(y):
             raise PFARuntimeException("arrays must have same length", self.errcodeBase + 0, self.name, pos)
-        diff = [abs(i - j)**2 for i,j in zip(x,y)]
-        return math.exp(-gamma*sum(diff))
+        diff = [(i - j)*(i - j) for i,j in zip(x,y)]
+        try:
+            return math.exp(-gamma*sum(diff))
+        except OverflowError:
+            return float("inf")
 provide(RBF())
 
 class Linear(LibFcn):
-- 
2.43.0


From 8fbd4e7300ba69e985d08f5f2a711e14e6eeaf4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:16 +0000
Subject: [PATCH 52/85] fix: metrics of distant vectors do not overflow

---
 titus/lib/metric.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/titus/lib/metric.py b/titus/lib/metric.py
index 71aa073..ccb4d01 100644
--- a/titus/lib/metric.py
+++ b/titus/lib/metric.py
@@ -44,7 +44,7 @@ class SimpleEuclidean(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, x, y):
         if len(x) != len(y):
             raise PFARuntimeException("dimensions of vectors do not match", self.errcodeBase + 0, self.name, pos)
-        return math.sqrt(sum(((xi - yi)**2 for xi, yi in zip(x, y))))
+        return math.sqrt(sum(((xi - yi)*(xi - yi) for xi, yi in zip(x, y))))
 provide(SimpleEuclidean())
 
 class AbsDiff(LibFcn):
@@ -60,7 +60,7 @@ class GaussianSimilarity(LibFcn):
     sig = Sig([{"x": P.Double()}, {"y": P.Double()}, {"sigma": P.Double()}], P.Double())
     errcodeBase = 28020
     def __call__(self, state, scope, pos, paramTypes, x, y, sigma):
-        return math.exp(div(-math.log(2) * (x - y)**2, sigma**2))
+        return math.exp(div(-math.log(2) * (x - y)*(x - y), sigma*sigma))
 provide(GaussianSimilarity())
 
 class MetricWithMissingValues(LibFcn):
@@ -97,9 +97,9 @@ class Euclidean(MetricWithMissingValues):
         ])
     errcodeBase = 28030
     def increment(self, tally, x):
-        return tally + x**2
+        return tally + x*x
     def finalize(self, x):
-        return math.sqrt(x)
+        return math.sqrt(x) if x >= 0 else float("nan")
 provide(Euclidean())
 
 class SquaredEuclidean(MetricWithMissingValues):
@@ -110,7 +110,7 @@ class SquaredEuclidean(MetricWithMissingValues):
         ])
     errcodeBase = 28040
     def increment(self, tally, x):
-        return tally + x**2
+        return tally + x*x
     def finalize(self, x):
         return x
 provide(SquaredEuclidean())
-- 
2.43.0


From 56f601a1963e97ae26c362cc67445c46fe89cdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:16 +0000
Subject: [PATCH 53/85] fix: model.naive.multinomial normalizes class models
 given as maps

---
 titus/lib/model/naive.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/model/naive.py b/titus/lib/model/naive.py
index c26620f..71fe8d0 100644
--- a/titus/lib/model/naive.py
+++ b/titus/lib/model/naive.py
@@ -103,7 +103,7 @@ class Multinomial(LibFcn):
             raise PFARuntimeException("datum and classModel misaligned", self.errcodeBase + 0, self.name, pos)
         for d in datumkeys:
             p = classModel[d]/normalizing + tiny
-            ll += datum[d]*math.log(classModel[d])
+            ll += datum[d]*math.log(p)
         return ll
 
     def __call__(self, state, scope, pos, paramTypes, datum, classModel):
-- 
2.43.0


From 175d03d7fc445ef4982c383804c1b1fe6edeb76e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:06:16 +0000
Subject: [PATCH 54/85] fix: model.reg.gaussianProcess uses krigingWeight and
 its error for matrices that are not positive definite; deprecated test
 statistics follow their replacements

---
 titus/lib/model/reg.py | 63 +++++++++++++++---------------------------
 1 file changed, 22 insertions(+), 41 deletions(-)

diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index 5e2a878..3cebe5b 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -191,6 +191,7 @@ class GaussianProcess(LibFcn):
                 raise PFARuntimeException("krigingWeight is not finite", self.errcodeBase + 7, self.name, pos)
         else:
             beta = krigingWeight
+        return beta
 
     def getnoutputs(self, x, table, paramTypes, pos):
         if isinstance(paramTypes[-1], dict) and paramTypes[-1].get("type") == "array":
@@ -331,7 +332,7 @@ class GaussianProcess(LibFcn):
 
         try:
             C = np().linalg.cholesky(R)
-        except numpy.linalg.linalg.LinAlgError:
+        except np().linalg.LinAlgError:
             raise PFARuntimeException("matrix of kernel results is not positive definite", self.errcodeBase + 8, self.name, pos)
 
         F = np().array([[1.0]] * len(X))
@@ -384,22 +385,14 @@ class Residual(LibFcn):
     errcodeBase = 31020
     def __call__(self, state, scope, pos, paramTypes, observation, prediction):
         if isinstance(observation, dict):
-            if len(observation) != len(prediction):
+            if set(observation.keys()) != set(prediction.keys()):
                 raise PFARuntimeException("misaligned prediction", self.errcodeBase + 0, self.name, pos)
-            result = {}
-            for k, o in list(observation.items()):
-                try:
-                    result[k] = o - prediction[k]
-                except KeyError:
-                    raise PFARuntimeException("misaligned prediction", self.errcodeBase + 0, self.name, pos)
-            return result
+            return dict((k, observation[k] - prediction[k]) for k in observation)
 
         elif isinstance(observation, (tuple, list)):
-            try:
-                result = [float(o - p) for o, p in zip(observation, prediction)]
-            except:
+            if len(observation) != len(prediction):
                 raise PFARuntimeException("misaligned prediction", self.errcodeBase + 0, self.name, pos)
-            return result
+            return [float(o - p) for o, p in zip(observation, prediction)]
 
         else:
             return float(observation - prediction)
@@ -414,35 +407,21 @@ class Pull(LibFcn):
     errcodeBase = 31030
     def __call__(self, state, scope, pos, paramTypes, observation, prediction, uncertainty):
         if isinstance(observation, dict):
-            if len(observation) != len(prediction):
+            if set(observation.keys()) != set(prediction.keys()):
                 raise PFARuntimeException("misaligned prediction", self.errcodeBase + 0, self.name, pos)
-            if len(observation) != len(uncertainty):
+            if set(observation.keys()) != set(uncertainty.keys()):
                 raise PFARuntimeException("misaligned uncertainty", self.errcodeBase + 1, self.name, pos)
-            result = {}
-            for k, o in list(observation.items()):
-                try:
-                    p = prediction[k]
-                except KeyError:
-                    raise PFARuntimeException("misaligned prediction", self.errcodeBase + 0, self.name, pos)
-                try:
-                    u = uncertainty[k]
-                except KeyError:
-                    raise PFARuntimeException("misaligned uncertainty", self.errcodeBase + 1, self.name, pos)
-                try:
-                    result[k] = (o - p) / u
-                except ZeroDivisionError:
-                    result[k] = float("nan")
-            return result
+            return dict((k, div(observation[k] - prediction[k], uncertainty[k])) for k in observation)
 
         elif isinstance(observation, (tuple, list)):
             if len(observation) != len(prediction):
                 raise PFARuntimeException("misaligned prediction", self.errcodeBase + 0, self.name, pos)
             if len(observation) != len(uncertainty):
-                raise PFARuntimeException("misaligned prediction", self.errcodeBase + 0, self.name, pos)
-            return [float((o - p)/u) for o, p, u in zip(observation, prediction, uncertainty)]
+                raise PFARuntimeException("misaligned uncertainty", self.errcodeBase + 1, self.name, pos)
+            return [float(div(o - p, u)) for o, p, u in zip(observation, prediction, uncertainty)]
 
         else:
-            return float((observation - prediction)/uncertainty)
+            return float(div(observation - prediction, uncertainty))
 
 provide(Pull())
 
@@ -457,14 +436,14 @@ class Mahalanobis(LibFcn):
                 raise PFARuntimeException("too few rows/cols", self.errcodeBase + 0, self.name, pos)
             if (len(observation) != len(prediction)):
                 raise PFARuntimeException("misaligned prediction", self.errcodeBase + 1, self.name, pos)
-            if (not all(len(i)==len(covariance[0]) for i in covariance)) and (len(covariance) != len(covariance[0])):
+            if len(covariance) != len(observation) or any(len(row) != len(observation) for row in covariance):
                 raise PFARuntimeException("misaligned covariance", self.errcodeBase + 2, self.name, pos)
             x = np().array([(o - p) for o, p in zip(observation, prediction)])
             C = np().array(covariance)
         else:
             if (len(observation) < 1):
                 raise PFARuntimeException("too few rows/cols", self.errcodeBase + 0, self.name, pos)
-            if (len(observation) != len(prediction)):
+            if (set(observation.keys()) != set(prediction.keys())):
                 raise PFARuntimeException("misaligned prediction", self.errcodeBase + 1, self.name, pos)
             # use observation keys throughout
             keys = list(observation.keys())
@@ -479,7 +458,11 @@ class Mahalanobis(LibFcn):
                         C[i,j] = float(covariance[k1][k2])
             except:
                 raise PFARuntimeException("misaligned covariance", self.errcodeBase + 2, self.name, pos)
-        return float(np().sqrt(np().linalg.solve(C, x).T.dot(x)))
+        resultSquared = float(np().linalg.solve(C, x).T.dot(x))
+        if resultSquared < 0:
+            return float("nan")
+        else:
+            return math.sqrt(resultSquared)
 provide(Mahalanobis())
 
 
@@ -490,7 +473,7 @@ class UpdateChi2(LibFcn):
                 Sig([{"pull": P.Map(P.Double())}, {"state_": P.WildRecord("A", {"chi2": P.Double(), "DOF": P.Int()})}], P.Wildcard("A"), Lifespan(None, PFAVersion(0, 7, 2), PFAVersion(0, 9, 0), "use test.updateChi2 instead"))])
     errcodeBase = 31050
     def __call__(self, state, scope, pos, paramTypes, pull, state_):
-        if isinstance(pull, float):
+        if isinstance(pull, (int, float)):
             return update(pull*pull, state_)
         elif isinstance(pull, (tuple, list)):
             return update(sum([y**2 for y in pull]), state_)
@@ -498,16 +481,14 @@ class UpdateChi2(LibFcn):
             return update(sum([y**2 for y in list(pull.values())]), state_)
 provide(UpdateChi2())
 def update(x, state_):
-    state_["chi2"] = float(state_["chi2"] + x)
-    state_["DOF"]  = float(state_["DOF"] + 1)
-    return state_
+    return dict(state_, chi2=float(state_["chi2"] + x), DOF=(state_["DOF"] + 1))
 
 class ReducedChi2(LibFcn):
     name = prefix + "reducedChi2"
     sig = Sig([{"state_": P.WildRecord("A", {"chi2": P.Double(), "DOF": P.Int()})}], P.Double(), Lifespan(None, PFAVersion(0, 7, 2), PFAVersion(0, 9, 0), "use test.reducedChi2 instead"))
     errcodeBase = 31060
     def __call__(self, state, scope, pos, paramTypes, state_):
-        return float(state_["chi2"]/state_["DOF"])
+        return float(div(state_["chi2"], state_["DOF"]))
 provide(ReducedChi2())
 
 class Chi2Prob(LibFcn):
-- 
2.43.0


From 948977cd1092564f2f598f714057c362941c831b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 55/85] fix: model.neighbor.mean with weights that add to zero

---
 titus/lib/model/neighbor.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/lib/model/neighbor.py b/titus/lib/model/neighbor.py
index 5a6865e..b812528 100644
--- a/titus/lib/model/neighbor.py
+++ b/titus/lib/model/neighbor.py
@@ -68,7 +68,7 @@ class Mean(LibFcn):
                 denom[i] += w
 
         for i in range(dimensions):
-            numer[i] /= denom[i]
+            numer[i] = div(numer[i], denom[i])
         return numer
 provide(Mean())
 
-- 
2.43.0


From 3227d8c6e62b2cbca4f44c505fd4a0b7962c2277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:42:07 +0000
Subject: [PATCH 56/85] fix: cumulative distributions at the ends of their
 numerical range

The F and Student t cumulative distributions returned nan for large
arguments, and the gamma series could exceed one by rounding or fail
when x/scale underflows.
---
 titus/lib/prob/dist.py | 2 +-
 titus/lib/spec.py      | 8 +++++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/titus/lib/prob/dist.py b/titus/lib/prob/dist.py
index 6dd22e6..80e888d 100644
--- a/titus/lib/prob/dist.py
+++ b/titus/lib/prob/dist.py
@@ -1263,7 +1263,7 @@ class FDistribution(object):
         elif x <= 0.0:
             return 0.0
         else:
-            arg1 = (self.d1*x)/(self.d1*x + self.d2)
+            arg1 = x/(x + self.d2/self.d1)
             arg2 = self.d1/2.0
             arg3 = self.d2/2.0
             return incompleteBetaFunction(arg1, arg2, arg3)
diff --git a/titus/lib/spec.py b/titus/lib/spec.py
index a5a799b..2a77fa0 100644
--- a/titus/lib/spec.py
+++ b/titus/lib/spec.py
@@ -138,6 +138,10 @@ def logBetaFunction(a, b):
 
 # numerical recipes in C
 def incompleteBetaFunction(x,a,b):
+    if x <= 0.0:
+        return 0.0
+    elif x >= 1.0:
+        return 1.0
     try:
         lbeta = math.lgamma(a + b) - math.lgamma(a) - math.lgamma(b) \
                 + a * math.log(x) + b * math.log(1.0 - x)
@@ -232,6 +236,8 @@ def contFractionBeta(a,b,x, maxIter = 1000, epsilon=1e-15):
 def regularizedGammaP(a, x):
     if (x < 0.0) or (a <= 0.0):
         raise Exception
+    if x == 0.0:
+        return 0.0
     maxIter = 1000
     epsilon = 1e-15
     n  = 0.0
@@ -248,7 +254,7 @@ def regularizedGammaP(a, x):
     elif total == float("inf"):
         ans = 1.0
     else:
-        ans = math.exp(-x + (a*math.log(x)) - math.lgamma(a)) * total
+        ans = min(1.0, math.exp(-x + (a*math.log(x)) - math.lgamma(a)) * total)
     return ans
 
 # http://www.johnkerl.org/python/sp_funcs_m.py.txt
-- 
2.43.0


From 78d08c743890b50f03ce1920c99069f45daf517c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:44:06 +0000
Subject: [PATCH 57/85] fix: quantiles of the gamma, chi2, F, lognormal and t
 distributions are found whenever they exist

The bisections never ended when the cumulative distribution is too steep
to be within the tolerance at any double, and Newton's method for gamma
divided by densities that underflow and gave wrong quantiles for shapes
well below one.
---
 titus/lib/prob/dist.py | 67 ++++++++++++++++--------------------------
 1 file changed, 25 insertions(+), 42 deletions(-)

diff --git a/titus/lib/prob/dist.py b/titus/lib/prob/dist.py
index 80e888d..ba462a6 100644
--- a/titus/lib/prob/dist.py
+++ b/titus/lib/prob/dist.py
@@ -872,6 +872,20 @@ provide(NegativeBinomialQF())
 ##### The actual distribution functions #################################################
 #########################################################################################
 
+def bisect(cdf, p, low, high, epsilon):
+    """Find the quantile of a continuous distribution between low and high, within epsilon in probability or as close as floating point permits."""
+    while True:
+        mid = low + (high - low)/2.0
+        if not (low < mid < high):
+            return mid
+        diff = cdf(mid) - p
+        if abs(diff) <= epsilon:
+            return mid
+        elif diff > 0:
+            high = mid
+        else:
+            low = mid
+
 ################### Gaussian
 class GaussianDistribution(object):
     def __init__(self, mu, sigma, name, errcodeBase, pos):
@@ -1130,21 +1144,12 @@ class GammaDistribution(object):
         elif (p == 0.0):
             return 0.0
         else:
-            y = self.alpha*self.beta
-            y_old = y
-            for i in range(0,100):
-                h = (self.CDF(y_old) - p)/self.PDF(y_old)
-                if y_old - h <= 0.0:
-                    y_new = y_old / 2.0
-                else:
-                    y_new = y_old - h
-                if abs(y_new) <= self.epsilon:
-                    y_new = y_old/10.0
-                    h = y_old - y_new
-                if abs(h) < math.sqrt(self.epsilon):
-                    break
-                y_old = y_new
-            return y_new
+            low = 0.0
+            high = self.alpha*self.beta
+            while self.CDF(high) < p - 1e-12:      # rounding may keep CDF from reaching p
+                low = high
+                high *= 2.0
+            return bisect(self.CDF, p, low, high, self.epsilon)
 
 ################### Beta
 class BetaDistribution(object):
@@ -1279,16 +1284,9 @@ class FDistribution(object):
             low = 0.0
             high = 1.0
             while self.CDF(high) < p:
+                low = high
                 high *= 2.0
-            diff = None
-            while diff is None or abs(diff) > self.epsilon:
-                mid = (low + high) / 2.0
-                diff = self.CDF(mid) - p
-                if diff > 0:
-                    high = mid
-                else:
-                    low = mid
-            return mid
+            return bisect(self.CDF, p, low, high, self.epsilon)
 
 ################### Lognormal
 class LognormalDistribution(object):
@@ -1330,16 +1328,9 @@ class LognormalDistribution(object):
             low = 0.0
             high = 1.0
             while self.CDF(high) < p:
+                low = high
                 high *= 2.0
-            diff = None
-            while diff is None or abs(diff) > self.epsilon:
-                mid = (low + high) / 2.0
-                diff = self.CDF(mid) - p
-                if diff > 0:
-                    high = mid
-                else:
-                    low = mid
-            return mid
+            return bisect(self.CDF, p, low, high, self.epsilon)
 
             # # Using Newton-Raphson algorithm
             # if p <= .001:
@@ -1401,15 +1392,7 @@ class TDistribution(object):
                 low *= 2.0
             while self.CDF(high) < p:
                 high *= 2.0
-            diff = None
-            while diff is None or abs(diff) > self.epsilon:
-                mid = (low + high) / 2.0
-                diff = self.CDF(mid) - p
-                if diff > 0:
-                    high = mid
-                else:
-                    low = mid
-            return mid
+            return bisect(self.CDF, p, low, high, self.epsilon)
 
             # # Using Newton-Raphson algorithm
             # if p <= .001:
-- 
2.43.0


From 95b5fe7c4a38756e1ec8c65acceffc6419cece55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:15 +0000
Subject: [PATCH 58/85] fix: discrete distributions on their whole support

binomialPDF and hypergeometricPDF gave zero at the largest possible
value, negativeBinomialCDF gave zero above it for size zero, quantiles
could step forever when the probabilities add up to less than p, large
sizes failed with a Python OverflowError, and quantiles were integers.
---
 titus/lib/prob/dist.py | 80 ++++++++++++++++++++----------------------
 titus/lib/spec.py      |  4 +++
 2 files changed, 43 insertions(+), 41 deletions(-)

diff --git a/titus/lib/prob/dist.py b/titus/lib/prob/dist.py
index ba462a6..41ada13 100644
--- a/titus/lib/prob/dist.py
+++ b/titus/lib/prob/dist.py
@@ -34,6 +34,7 @@ from titus.lib.spec import inverseIncompleteBetaFunction
 from titus.lib.spec import regularizedGammaQ
 from titus.lib.spec import regularizedGammaP
 from titus.lib.spec import nChooseK
+from titus.lib.spec import logNChooseK
 
 provides = {}
 def provide(fcn):
@@ -597,7 +598,7 @@ class BinomialPDF(LibFcn):
             raise PFARuntimeException("invalid input", self.errcodeBase + 1, self.name, pos)
         elif x < 0:
             return 0.0
-        elif x >= size:
+        elif x > size:
             return 0.0
         else:
             return BinomialDistribution(size, prob, self.errcodeBase + 0, self.name, pos).PDF(x)
@@ -839,12 +840,10 @@ class NegativeBinomialCDF(LibFcn):
             raise PFARuntimeException("invalid parameterization", self.errcodeBase + 0, self.name, pos)
         elif math.isinf(x) or math.isnan(x):
             raise PFARuntimeException("invalid input", self.errcodeBase + 1, self.name, pos)
-        elif x == 0 and size == 0:
-            return 1.0
-        elif size == 0:
-            return 0.0
         elif x < 0:
             return 0.0
+        elif size == 0:
+            return 1.0
         else:
             return NegativeBinomialDistribution(size, prob, self.errcodeBase + 0, self.name, pos).CDF(x)
 provide(NegativeBinomialCDF())
@@ -1087,7 +1086,7 @@ class PoissonDistribution(object):
             while (p0 <= p):
                 p0 = self.CDF(x)
                 x += 1
-            return x - 1
+            return float(x - 1)
 
 ################### Gamma
 class GammaDistribution(object):
@@ -1432,7 +1431,12 @@ class BinomialDistribution(object):
             elif (x < 0) or (x > self.n):
                 nchoosek = 0.0
             else:
-                nchoosek = nChooseK(self.n, x)
+                try:
+                    nchoosek = nChooseK(self.n, x)
+                except OverflowError:
+                    if (self.prob == 0.0) or (self.prob == 1.0):
+                        return 1.0 if x == self.n * self.prob else 0.0
+                    return math.exp(logNChooseK(self.n, x) + x*math.log(self.prob) + (self.n - x)*math.log1p(-self.prob))
             return nchoosek * pow(self.prob, x) * pow(1.0 - self.prob, self.n - x)
 
     def CDF(self, x):
@@ -1460,10 +1464,10 @@ class BinomialDistribution(object):
             # step through CDFs until we find the right one
             x = 0
             p0 = 0.0
-            while (p0 < p):
+            while (p0 < p) and (x <= self.n):
                 p0 = p0 + self.PDF(x)
                 x += 1
-            return x - 1
+            return float(x - 1)
         else:
             return 0.0
 
@@ -1538,7 +1542,7 @@ class GeometricDistribution(object):
             if self.prob == 1.0:
                 return 0.0
             else:
-                return math.floor(math.log(1.0 - p)/math.log(1.0 - self.prob))
+                return float(math.floor(math.log1p(-p)/math.log1p(-self.prob)))
         else:
             return 0.0
 
@@ -1555,29 +1559,13 @@ class HypergeometricDistribution(object):
             raise PFARuntimeException("invalid parameterization", self.errcodeBase + 0, self.name, self.pos)
 
     def PDF(self, x): # x is number of white balls drawn
-        # compute nchoosek(n_white,x)
-        if x == 0:
-            nchoosek1 = 1.0
-        elif (x < 0) or (x >= self.n_white):
-            nchoosek1 = 0.0
-        else:
-            nchoosek1 = nChooseK(self.n_white, x)
-        # compute nchoosek(n_black, n_drawn - x)
-        if (self.n_drawn - x == 0):
-            nchoosek2 = 1.0
-        elif (self.n_drawn - x < 0) or (self.n_drawn - x > self.n_black):
-            nchoosek2 = 0.0
-        else:
-            nchoosek2 = nChooseK(self.n_black, self.n_drawn - x)
-        # compute nchoosek(n_white + n_black, n_drawn)
-        if self.n_drawn == 0:
-            nchoosek3 = 1.0
-        elif (self.n_drawn < 0) or (self.n_drawn > self.n_white + self.n_black):
-            nchoosek3 = 0.0
-        else:
-            nchoosek3 = nChooseK(self.n_white + self.n_black, self.n_drawn)
-        # compute
-        return nchoosek1 * nchoosek2 / nchoosek3
+        if (x < 0) or (x > self.n_white) or (self.n_drawn - x < 0) or (self.n_drawn - x > self.n_black):
+            return 0.0
+        n_total = self.n_white + self.n_black
+        try:
+            return float(nChooseK(self.n_white, x) * nChooseK(self.n_black, self.n_drawn - x) / nChooseK(n_total, self.n_drawn))
+        except OverflowError:
+            return math.exp(logNChooseK(self.n_white, x) + logNChooseK(self.n_black, self.n_drawn - x) - logNChooseK(n_total, self.n_drawn))
 
     def CDF(self, x):
         if (x > self.n_white):
@@ -1594,15 +1582,15 @@ class HypergeometricDistribution(object):
         elif math.isnan(p):
             return float("nan")
         elif (p == 1):
-            return self.n_drawn
+            return float(min(self.n_drawn, self.n_white))
         else:
             # step through CDFs until we find the right one
             x = 0
             p0 = 0.0
-            while (p0 <= p):
+            while (p0 <= p) and (x <= min(self.n_drawn, self.n_white)):
                 p0 = p0 + self.PDF(x)
                 x += 1
-            return x - 1
+            return float(x - 1)
 
 ################### Weibull
 class WeibullDistribution(object):
@@ -1681,7 +1669,10 @@ class NegativeBinomialDistribution(object):
             elif x < 0:
                 val = 0.0
             else:
-                val = nChooseK(self.n + x - 1.0, x)
+                try:
+                    val = nChooseK(self.n + x - 1.0, x)
+                except OverflowError:
+                    return math.exp(logNChooseK(self.n + x - 1.0, x) + x*math.log1p(-self.prob) + self.n*math.log(self.prob))
             return val * pow(1.0 - self.prob, x) * pow(self.prob, self.n)
         else:
             return 0.0
@@ -1691,10 +1682,14 @@ class NegativeBinomialDistribution(object):
             return float("nan")
         elif (self.n == 0.0) and (x == 0.0):
             return 1.0
+        mean = self.n * (1.0 - self.prob)/self.prob
         val = 0.0
         for i in range(0, int(math.floor(x + 1.0))):
-            val = val + self.PDF(float(i))
-        return val
+            term = self.PDF(float(i))
+            if (i > mean) and (val + term == val):
+                break      # the rest of the tail is too small to change the sum
+            val = val + term
+        return min(1.0, val)
 
     def QF(self, p):
         # CDF SEEMS MORE ACCURATE NOW, REVISIT
@@ -1732,11 +1727,14 @@ class NegativeBinomialDistribution(object):
             # CDF
             # only use CD for very extreme values
             if w > 100000:
-                return w
+                return float(w)
             else:  # do the step-through-CDF method
                 x = 0.0
                 s = 0.0
                 while (s <= p):
-                    s = s + self.PDF(x)
+                    term = self.PDF(x)
+                    if (x > mu) and (s + term == s):
+                        break      # rounding keeps the sum from reaching p
+                    s = s + term
                     x += 1
                 return x - 1
diff --git a/titus/lib/spec.py b/titus/lib/spec.py
index 2a77fa0..7cc8260 100644
--- a/titus/lib/spec.py
+++ b/titus/lib/spec.py
@@ -318,6 +318,10 @@ def gcf(a, x, itmax=200, eps=3.0e-7):
         n = n + 1
     raise Exception
 
+# natural logarithm of nChooseK, for values too large for a floating point number
+def logNChooseK(n, k):
+    return math.lgamma(n + 1.0) - math.lgamma(k + 1.0) - math.lgamma(n - k + 1.0)
+
 def nChooseK(n, k):
     # is n an integer?
     nInt = (math.floor(n) == n)
-- 
2.43.0


From 7453aea54053314e5a58d221676ce52193dfce1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:52 +0000
Subject: [PATCH 59/85] fix: densities that underflow or overflow in the middle
 of their formulas

fPDF with large degrees of freedom and the Weibull distribution far in
its tail failed with a Python OverflowError; gaussianLL and lognormalPDF
squared sigma before dividing, which underflows; hypergeometricCDF could
exceed one by rounding.
---
 titus/lib/prob/dist.py | 31 ++++++++++++++++++++-----------
 1 file changed, 20 insertions(+), 11 deletions(-)

diff --git a/titus/lib/prob/dist.py b/titus/lib/prob/dist.py
index 41ada13..feb033c 100644
--- a/titus/lib/prob/dist.py
+++ b/titus/lib/prob/dist.py
@@ -902,7 +902,7 @@ class GaussianDistribution(object):
         elif (self.sigma == 0.0) and (x != self.mu):
             return float("-inf")
         else:
-            term1 = -(x - self.mu)**2/(2.0 * self.sigma**2)
+            term1 = -((x - self.mu)/self.sigma)**2/2.0
             term2 = math.log(self.sigma * math.sqrt(2.0 * math.pi))
             return term1 - term2
 
@@ -1144,7 +1144,7 @@ class GammaDistribution(object):
             return 0.0
         else:
             low = 0.0
-            high = self.alpha*self.beta
+            high = max(self.alpha*self.beta, 1e-300)
             while self.CDF(high) < p - 1e-12:      # rounding may keep CDF from reaching p
                 low = high
                 high *= 2.0
@@ -1255,11 +1255,12 @@ class FDistribution(object):
         elif (x == 0) and (self.d1 == 2.0):
             return 1.0
         else:
-            num_arg1 = pow(self.d1/self.d2, self.d1/2.0)
-            num_arg2 = pow(x, (self.d1/2.0)-1.0)
-            den_arg1 = math.exp(logBetaFunction(self.d1/2.0, self.d2/2.0))
-            den_arg2 = pow((1.0 + (self.d1*x)/self.d2), (self.d1 + self.d2)/2.0)
-            return (num_arg1*num_arg2)/(den_arg1*den_arg2)
+            # in logarithms because the factors overflow when degrees of freedom are large
+            num_arg1 = math.log(self.d1/self.d2) * self.d1/2.0
+            num_arg2 = math.log(x) * ((self.d1/2.0)-1.0)
+            den_arg1 = logBetaFunction(self.d1/2.0, self.d2/2.0)
+            den_arg2 = math.log(1.0 + (self.d1*x)/self.d2) * (self.d1 + self.d2)/2.0
+            return math.exp(num_arg1 + num_arg2 - den_arg1 - den_arg2)
 
     def CDF(self,x):
         if math.isnan(x):
@@ -1305,7 +1306,7 @@ class LognormalDistribution(object):
             return 0.0
         else:
             term1 = 1.0/(x*self.sigma*math.sqrt(2.0*math.pi))
-            term2 = pow(math.log(x) - self.mu, 2.0)/(2.0*pow(self.sigma, 2.0))
+            term2 = ((math.log(x) - self.mu)/self.sigma)**2/2.0
             return term1 * math.exp(-term2)
 
     def CDF(self, x):
@@ -1574,7 +1575,7 @@ class HypergeometricDistribution(object):
             val = 0.0
             for i in range(0, int(math.floor(x + 1.0))):
                 val = val + self.PDF(float(i))
-            return val
+            return min(1.0, val)
 
     def QF(self, p):
         if (p > 1.0) or (p < 0.0):
@@ -1615,8 +1616,13 @@ class WeibullDistribution(object):
                 return 0.0
         elif x >= 0.0:
             term1 = (self.a/self.b)
+            try:
+                term3 = math.exp(-pow(x/self.b, self.a))
+            except OverflowError:
+                return 0.0
+            if term3 == 0.0:
+                return 0.0
             term2 = pow(x/self.b, self.a - 1.0)
-            term3 = math.exp(-pow(x/self.b, self.a))
             return term1 * term2 * term3
 
         else:
@@ -1626,7 +1632,10 @@ class WeibullDistribution(object):
         if math.isnan(x):
             return float("nan")
         elif x >= 0.0:
-            return 1.0 - math.exp(-pow(x/self.b, self.a))
+            try:
+                return 1.0 - math.exp(-pow(x/self.b, self.a))
+            except OverflowError:
+                return 1.0
         else:
             return 0.0
 
-- 
2.43.0


From ad5390ffb6902ffe3444f3dab12dc5746213a5ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:45:52 +0000
Subject: [PATCH 60/85] fix: m.special.nChooseK raises its domain error when
 the result is not an int

---
 titus/lib/spec.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/titus/lib/spec.py b/titus/lib/spec.py
index 7cc8260..d3a9f37 100644
--- a/titus/lib/spec.py
+++ b/titus/lib/spec.py
@@ -39,7 +39,12 @@ class NChooseK(LibFcn):
     def __call__(self, state, scope, pos, paramTypes, n, k):
         try:
             if n == k: raise Exception
-            return int(nChooseK(n, k))
+            if k != 0 and (n < k or k < 0): raise Exception
+            out = 1
+            for i in range(min(k, abs(n - k))):
+                out = out * (n - i) // (i + 1)
+                if out > 2147483647: raise Exception
+            return out
         except:
             raise PFARuntimeException("domain error", self.errcodeBase + 0, self.name, pos)
 provide(NChooseK())
-- 
2.43.0


From b6dc3aca85d17f4ca7c4ce1feff785e4a7e3a337 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:32:42 +0000
Subject: [PATCH 61/85] fix: gammaCDF and lognormalPDF where their series or
 formula is long or tiny

---
 titus/lib/prob/dist.py | 3 +--
 titus/lib/spec.py      | 2 +-
 2 files changed, 2 insertions(+), 3 deletions(-)

diff --git a/titus/lib/prob/dist.py b/titus/lib/prob/dist.py
index feb033c..ff413c7 100644
--- a/titus/lib/prob/dist.py
+++ b/titus/lib/prob/dist.py
@@ -1305,9 +1305,8 @@ class LognormalDistribution(object):
         if x <= 0.0:
             return 0.0
         else:
-            term1 = 1.0/(x*self.sigma*math.sqrt(2.0*math.pi))
             term2 = ((math.log(x) - self.mu)/self.sigma)**2/2.0
-            return term1 * math.exp(-term2)
+            return math.exp(-term2)/x/(self.sigma*math.sqrt(2.0*math.pi))
 
     def CDF(self, x):
         if x <= 0.0:
diff --git a/titus/lib/spec.py b/titus/lib/spec.py
index d3a9f37..ce8f619 100644
--- a/titus/lib/spec.py
+++ b/titus/lib/spec.py
@@ -243,7 +243,7 @@ def regularizedGammaP(a, x):
         raise Exception
     if x == 0.0:
         return 0.0
-    maxIter = 1000
+    maxIter = 100000
     epsilon = 1e-15
     n  = 0.0
     an = 1.0/a
-- 
2.43.0


From b1d2fb2253701b76318c79de48e8fd130edc896f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:22 +0000
Subject: [PATCH 62/85] fix: signature wildcards accepted enums, fixeds, shared
 labels and function arguments they should refuse

---
 titus/signature.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/titus/signature.py b/titus/signature.py
index a5595c3..f5fa46c 100644
--- a/titus/signature.py
+++ b/titus/signature.py
@@ -287,12 +287,15 @@ class LabelData(object):
     def __init__(self):
         self.members = []
         self.expectedFields = None
+        self.oneOf = None
 
     def add(self, t):
         self.members.append(t)
 
     def determineAssignment(self):
         out = LabelData.broadestType(self.members)
+        if self.oneOf is not None and out not in self.oneOf:
+            raise IncompatibleTypes("arguments have no common type among those allowed")
         if self.expectedFields is not None:
             if isinstance(out, AvroRecord):
                 if self.expectedFields != tuple(x.name for x in out.fields):
@@ -374,6 +377,10 @@ class Sig(Signature):
                     assignments = dict((l, ld.determineAssignment()) for l, ld in list(labelData.items()))
                     assignedParams = [self.assign(list(p.values())[0], a, assignments) for p, a in zip(self.params, args)]
                     assignedRet = self.assignRet(self.ret, assignments)
+                    for p, a in zip(self.params, args):
+                        pat = list(p.values())[0]
+                        if isinstance(pat, P.Fcn) and not all(x.accepts(self.assignRet(y, assignments)) for x, y in zip(a.params, pat.params)):
+                            raise IncompatibleTypes("function argument does not accept the values it would be given")
                     return (self, assignedParams, assignedRet)
                 except IncompatibleTypes:
                     return None
@@ -526,6 +533,8 @@ class Sig(Signature):
                 if not pat.label in labelData:
                     labelData[pat.label] = LabelData()
                 labelData[pat.label].add(arg)
+                if pat.oneOf is not None:
+                    labelData[pat.label].oneOf = pat.oneOf
                 return True
             else:
                 return False
@@ -542,13 +551,13 @@ class Sig(Signature):
             else:
                 return False
 
-        elif isinstance(pat, P.WildEnum):
+        elif isinstance(pat, P.WildEnum) and isinstance(arg, AvroEnum):
             if not pat.label in labelData:
                 labelData[pat.label] = LabelData()
             labelData[pat.label].add(arg)
             return True
 
-        elif isinstance(pat, P.WildFixed):
+        elif isinstance(pat, P.WildFixed) and isinstance(arg, AvroFixed):
             if not pat.label in labelData:
                 labelData[pat.label] = LabelData()
             labelData[pat.label].add(arg)
@@ -751,7 +760,7 @@ def toText(p, alreadyLabeled=None):
         return p.label
     elif isinstance(p, P.Wildcard):
         alreadyLabeled.add(p.label)
-        if len(p.oneOf) == 0:
+        if p.oneOf is None or len(p.oneOf) == 0:
             return "any " + p.label
         else:
             return "any " + p.label + " of {" + ", ".join(toTextType(x) for x in p.oneOf) + "}"
-- 
2.43.0


From 485ab9eae2813b884f3c9060a4dca81c37f843b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:22 +0000
Subject: [PATCH 63/85] fix: check the types of arguments filled into a
 function reference

---
 titus/pfaast.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/titus/pfaast.py b/titus/pfaast.py
index a562403..7e4d507 100644
--- a/titus/pfaast.py
+++ b/titus/pfaast.py
@@ -1736,6 +1736,11 @@ class FcnRefFill(Argument):
                 raise PFASemanticException("fill argument names (\"{0}\") are not a subset of function \"{1}\" parameter names (\"{2}\")".format("\", \"".join(sorted(fillNames)), self.name, "\", \"".join(originalParamNames)), self.pos)
 
             fcnType = FcnType([P.mustBeAvro(P.toType(list(p.values())[0])) for p in params if list(p.keys())[0] not in fillNames], P.mustBeAvro(P.toType(ret)))
+
+            for p in params:
+                (n, pattern), = p.items()
+                if n in fillNames and Sig([p], P.Null()).accepts([argTypeResult[n][0]], version) is None:
+                    raise PFASemanticException("fill argument \"{0}\" of function \"{1}\" does not accept {2}".format(n, self.name, argTypeResult[n][0]), self.pos)
         except IncompatibleTypes:
             raise PFASemanticException("only one-signature functions without constraints can be referenced (wrap \"{0}\" in a function definition with the desired signature)".format(self.name), self.pos)
 
-- 
2.43.0


From eccb2fc00bbcee57d5fcc6a0219c157775969b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:22 +0000
Subject: [PATCH 64/85] fix: mahalanobis of a singular covariance is not a
 number instead of a host error

---
 titus/lib/model/reg.py    | 5 ++++-
 titus/lib/stat/pfatest.py | 5 ++++-
 2 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/titus/lib/model/reg.py b/titus/lib/model/reg.py
index 3cebe5b..8528248 100644
--- a/titus/lib/model/reg.py
+++ b/titus/lib/model/reg.py
@@ -458,7 +458,10 @@ class Mahalanobis(LibFcn):
                         C[i,j] = float(covariance[k1][k2])
             except:
                 raise PFARuntimeException("misaligned covariance", self.errcodeBase + 2, self.name, pos)
-        resultSquared = float(np().linalg.solve(C, x).T.dot(x))
+        try:
+            resultSquared = float(np().linalg.solve(C, x).T.dot(x))
+        except np().linalg.LinAlgError:   # singular
+            return float("nan")
         if resultSquared < 0:
             return float("nan")
         else:
diff --git a/titus/lib/stat/pfatest.py b/titus/lib/stat/pfatest.py
index efd82bb..4e324f5 100644
--- a/titus/lib/stat/pfatest.py
+++ b/titus/lib/stat/pfatest.py
@@ -166,7 +166,10 @@ class Mahalanobis(LibFcn):
                         C[i,j] = float(covariance[k1][k2])
             except:
                 raise PFARuntimeException("misaligned covariance", self.errcodeBase + 2, self.name, pos)
-        resultSquared = float(np().linalg.solve(C, x).T.dot(x))
+        try:
+            resultSquared = float(np().linalg.solve(C, x).T.dot(x))
+        except np().linalg.LinAlgError:   # singular
+            return float("nan")
         if resultSquared < 0:
             return float("nan")
         else:
-- 
2.43.0


From a355d34a7da6383f006271847c646b2c5904d870 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:22 +0000
Subject: [PATCH 65/85] fix: convert Python 3 syntax trees to PFA expressions

---
 titus/producer/expression.py | 55 +++++++++++++++++++++++++++---------
 1 file changed, 42 insertions(+), 13 deletions(-)

diff --git a/titus/producer/expression.py b/titus/producer/expression.py
index d62ed73..63458b0 100644
--- a/titus/producer/expression.py
+++ b/titus/producer/expression.py
@@ -119,6 +119,23 @@ def _newscope(state, newvars=None):
 def _statements(stmts, state):
     return [_statement(x, state) for x in stmts]
 
+def _const(expr):
+    """True for a literal None, True or False (a name in Python 2 and a constant in Python 3)."""
+    return isinstance(expr, ast.NameConstant)
+
+def _isnumber(expr):
+    """True for a numeric literal, including a negative one."""
+    return isinstance(expr, ast.Num) or \
+           (isinstance(expr, ast.UnaryOp) and isinstance(expr.op, ast.USub) and isinstance(expr.operand, ast.Num))
+
+def _number(expr):
+    if isinstance(expr, ast.UnaryOp):
+        return -_number(expr.operand)
+    elif isinstance(expr.n, (int, float)):
+        return expr.n
+    else:
+        raise PythonToPfaException("Python AST node {0} (source line {1}) does not have a PFA equivalent".format(ast.dump(expr), expr.lineno))
+
 def _statement(stmt, state):
     if isinstance(stmt, ast.Assign):
         if len(stmt.targets) == 1 and isinstance(stmt.targets[0], ast.Name):
@@ -131,7 +148,7 @@ def _statement(stmt, state):
             state["symbols"].add(name)
             return _form(state, stmt.lineno, {letset: {name: expr}})
 
-        elif len(stmt.targets) == 1 and isinstance(stmt.targets[0], ast.Tuple) and all(isinstance(x, ast.Name) for x in stmt.targets[0].elts) and isinstance(stmt.value, ast.Tuple):
+        elif len(stmt.targets) == 1 and isinstance(stmt.targets[0], ast.Tuple) and all(isinstance(x, ast.Name) for x in stmt.targets[0].elts) and isinstance(stmt.value, ast.Tuple) and len(stmt.targets[0].elts) == len(stmt.value.elts):
             out = OrderedDict()
             lets = 0
             sets = 0
@@ -150,8 +167,8 @@ def _statement(stmt, state):
                 raise PythonToPfaException("cannot declare {0} symbols and reassign {1} in the same statement (source line {2})".format(lets, sets, stmt.lineno))
             return _form(state, stmt.lineno, {letset: out})
 
-    elif isinstance(stmt, ast.Print):
-        return _form(state, stmt.lineno, {"log": [_expression(x, state) for x in stmt.values]})
+    elif isinstance(stmt, ast.Expr) and isinstance(stmt.value, ast.Call) and isinstance(stmt.value.func, ast.Name) and stmt.value.func.id == "print" and len(stmt.value.keywords) == 0:
+        return _form(state, stmt.lineno, {"log": [_expression(x, state) for x in stmt.value.args]})
 
     elif isinstance(stmt, ast.For):
         if isinstance(stmt.target, ast.Name):
@@ -186,8 +203,8 @@ def _statement(stmt, state):
             return _form(state, stmt.lineno, OrderedDict([("cond", chain)]))
 
     elif isinstance(stmt, ast.Raise):
-        if isinstance(stmt.type, ast.Str):
-            return _form(state, stmt.lineno, {"error": stmt.type.s})
+        if isinstance(stmt.exc, ast.Str):
+            return _form(state, stmt.lineno, {"error": stmt.exc.s})
 
     elif isinstance(stmt, ast.Expr):
         return _expression(stmt.value, state)
@@ -252,8 +269,13 @@ def _expression(expr, state):
             op = "&"
         elif isinstance(expr.op, ast.FloorDiv):
             op = "//"
+        else:
+            raise PythonToPfaException("Python AST node {0} (source line {1}) does not have a PFA equivalent".format(ast.dump(expr), expr.lineno))
         return _form(state, expr.lineno, {op: [_expression(expr.left, _newscope(state)), _expression(expr.right, _newscope(state))]})
 
+    elif _isnumber(expr):
+        return _number(expr)
+
     elif isinstance(expr, ast.UnaryOp):
         if isinstance(expr.op, ast.Invert):
             op = "~"
@@ -283,7 +305,7 @@ def _expression(expr, state):
             elif isinstance(x, ast.Gt): return ">"
             elif isinstance(x, ast.GtE): return ">="
             else:
-                raise PythonToPfaException("Python AST node {0} (source line {1}) does not have a PFA equivalent".format(ast.dump(x), x.lineno))
+                raise PythonToPfaException("Python AST node {0} (source line {1}) does not have a PFA equivalent".format(ast.dump(x), expr.lineno))
 
         ops = list(reversed(expr.ops))
         cmps = list(reversed(expr.comparators))
@@ -308,7 +330,7 @@ def _expression(expr, state):
                 raise PythonToPfaException("Python AST node {0} (source line {1}) does not have a PFA equivalent".format(ast.dump(x), x.lineno))
 
         specialForms = ["Int", "Long", "Float", "Double", "String", "Base64", "Type", "Value", "New", "Do", "Let", "Set", "Attr", "Path", "To", "Cell", "Pool", "Init", "If", "Then", "Else", "Cond", "While", "Until", "For", "Step", "Foreach", "In", "Forkey", "Forval", "Cast", "Cases", "Partial", "Upcast", "As", "Ifnotnull", "Doc", "Error", "Log", "Namespace", "Params", "Ret", "Fcn"]
-        coreLibrary = {"Plus": "+", "Minus": "-", "Times": "*", "Divide": "/", "FloorDivide": "//", "Negative": "U-", "Modulo": "%", "Remainder": "%%", "Pow": "**", "Comparison": "cmp", "Equal": "==", "GreaterOrEqual": ">=", "GreaterThan": ">", "NotEqual": "!=", "LessThan": "<", "LessOrEqual": "<=", "Max": "max", "Min": "min", "And": "&&", "Or": "||", "XOr": "^^", "Not": "!", "BitwiseAnd": "&", "BitwiseOr": "|", "BitwiseXOr": "^", "BitwiseNot": "~"}
+        coreLibrary = {"Plus": "+", "Minus": "-", "Times": "*", "Divide": "/", "FloorDivide": "//", "Negative": "u-", "Modulo": "%", "Remainder": "%%", "Pow": "**", "Comparison": "cmp", "Equal": "==", "GreaterOrEqual": ">=", "GreaterThan": ">", "NotEqual": "!=", "LessThan": "<", "LessOrEqual": "<=", "Max": "max", "Min": "min", "And": "&&", "Or": "||", "XOr": "^^", "Not": "!", "BitwiseAnd": "&", "BitwiseOr": "|", "BitwiseXOr": "^", "BitwiseNot": "~"}
 
         name = unfold(expr.func)
         if name in specialForms:
@@ -332,8 +354,8 @@ def _expression(expr, state):
 
         return _form(state, expr.lineno, out)
 
-    elif isinstance(expr, ast.Num):
-        return expr.n
+    elif _const(expr):
+        return expr.value
 
     elif isinstance(expr, ast.Str):
         return {"string": expr.s}
@@ -369,10 +391,14 @@ def _unfold(x, path, state):
         path.insert(0, {"string": x.attr})
         return _unfold(x.value, path, state)
 
-    elif isinstance(x, ast.Subscript) and isinstance(x.slice, ast.Index):
-        path.insert(0, _expression(x.slice.value, state))
+    elif isinstance(x, ast.Subscript) and not isinstance(x.slice, (ast.Slice, ast.Tuple)) and type(x.slice).__name__ != "ExtSlice":
+        index = x.slice.value if type(x.slice).__name__ == "Index" else x.slice      # no longer wrapped since Python 3.9
+        path.insert(0, _expression(index, state))
         return _unfold(x.value, path, state)
 
+    elif isinstance(x, ast.Subscript):
+        raise PythonToPfaException("Python AST node {0} (source line {1}) does not have a PFA equivalent".format(ast.dump(x), x.lineno))
+
     else:
         if isinstance(x, ast.Name) and x.id in state["cells"]:
             return _form(state, x.lineno, OrderedDict([("cell", x.id), ("path", path)]))
@@ -393,8 +419,11 @@ def _literal(expr, state):
                 raise PythonToPfaException("literal JSON keys must be strings or subs identifiers, not {0} (source line {1})".format(ast.dump(expr), expr.lineno))
         return out
 
-    elif isinstance(expr, ast.Num):
-        return expr.n
+    elif _isnumber(expr):
+        return _number(expr)
+
+    elif _const(expr):
+        return expr.value
 
     elif isinstance(expr, ast.Str):
         return expr.s
-- 
2.43.0


From 6e5f9a84cef74962349e8af6e4cb01ab5a2c9883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:09:22 +0000
Subject: [PATCH 66/85] fix: JSON pattern matching of booleans, groups, tuples
 and copies, replacing while searching

---
 titus/producer/tools.py | 39 +++++++++++++++++++++------------------
 1 file changed, 21 insertions(+), 18 deletions(-)

diff --git a/titus/producer/tools.py b/titus/producer/tools.py
index f60acd1..c4ef56e 100644
--- a/titus/producer/tools.py
+++ b/titus/producer/tools.py
@@ -61,13 +61,13 @@ def assigned(expr, index, to):
 
 def assignAt(pattern, expr, to):
     """Destructively (in-place) replace subexpressions that match a regular expression pattern."""
-    for i in indexes(pattern, expr):
+    for i in list(indexes(pattern, expr)):
         assign(expr, i, to)
 
 def assignedAt(pattern, expr, to):
     """Return a copy of expr with replaced subexpressions at points that match a regular expression pattern."""
     expr = copy.deepcopy(expr)
-    for i in indexes(pattern, expr):
+    for i in list(indexes(pattern, expr)):
         assign(expr, i, to)
     return expr
 
@@ -102,6 +102,9 @@ class Match(object):
     def __repr__(self):
         return "Match(" + repr(self.modified) + ")"
 
+def _isnumber(x):
+    return isinstance(x, (int, float)) and not isinstance(x, bool)
+
 def getmatch(pattern, haystack):
     """Generic function to match a regular expression pattern to a haystack expression."""
 
@@ -138,13 +141,13 @@ def getmatch(pattern, haystack):
                 return None
         return out
 
-    elif isinstance(pattern, (str, int, float)):
-        if pattern == haystack:
+    elif isinstance(pattern, str) or _isnumber(pattern):
+        if pattern == haystack and not isinstance(haystack, bool):
             return Match(haystack, haystack)
         else:
             return None
 
-    elif pattern in (True, False, None):
+    elif pattern is None or isinstance(pattern, bool):
         if pattern is haystack:
             return Match(haystack, haystack)
         else:
@@ -165,7 +168,7 @@ class Group(Matcher):
     def __repr__(self):
         return "Group(" + repr(self.name) + "=" + repr(self.matcher) + ")"
     def getmatch(self, haystack):
-        m = self.matcher.getmatch(haystack)
+        m = getmatch(self.matcher, haystack)
         if m is not None:
             m.groups[self.name] = m.modified
             return m
@@ -183,8 +186,8 @@ class Min(Matcher):
             return None
         if len(set(self.obj.keys()).difference(set(["@"])).difference(set(haystack.keys()))) > 0:
             return None
-        out = Match(dict((k, v) for k, v in list(haystack.items()) if k != "@"),
-                    dict((k, v) for k, v in list(haystack.items()) if k != "@"))
+        out = Match(dict((k, copy.deepcopy(v)) for k, v in list(haystack.items()) if k != "@"),
+                    dict((k, copy.deepcopy(v)) for k, v in list(haystack.items()) if k != "@"))
         for key in self.obj:
             if key != "@":
                 m = getmatch(self.obj[key], haystack[key])
@@ -216,8 +219,8 @@ class Start(Matcher):
                 out.groups.update(m.groups)
             else:
                 return None
-        out.original.extend(haystack[len(self.array):])
-        out.modified.extend(haystack[len(self.array):])
+        out.original.extend(copy.deepcopy(haystack[len(self.array):]))
+        out.modified.extend(copy.deepcopy(haystack[len(self.array):]))
         return out
 
 class End(Matcher):
@@ -240,8 +243,8 @@ class End(Matcher):
                 out.groups.update(m.groups)
             else:
                 return None
-        out.original = haystack[:(len(haystack) - len(self.array))] + out.original
-        out.modified = haystack[:(len(haystack) - len(self.array))] + out.modified
+        out.original = copy.deepcopy(list(haystack[:(len(haystack) - len(self.array))])) + out.original
+        out.modified = copy.deepcopy(list(haystack[:(len(haystack) - len(self.array))])) + out.modified
         return out
 
 class Or(Matcher):
@@ -286,7 +289,7 @@ class Approx(Matcher):
     def __repr__(self):
         return "Approx(" + repr(self.central) + ", " + repr(self.error) + ")"
     def getmatch(self, haystack):
-        if not isinstance(haystack, (int, float)) or abs(haystack - self.central) > self.error:
+        if not _isnumber(haystack) or abs(haystack - self.central) > self.error:
             return None
         else:
             return Match(haystack, haystack)
@@ -298,7 +301,7 @@ class LT(Matcher):
     def __repr__(self):
         return "LT(" + repr(self.value) + ")"
     def getmatch(self, haystack):
-        if not isinstance(haystack, (int, float)) or haystack >= self.value:
+        if not _isnumber(haystack) or haystack >= self.value:
             return None
         else:
             return Match(haystack, haystack)
@@ -310,7 +313,7 @@ class LE(Matcher):
     def __repr__(self):
         return "LE(" + repr(self.value) + ")"
     def getmatch(self, haystack):
-        if not isinstance(haystack, (int, float)) or haystack > self.value:
+        if not _isnumber(haystack) or haystack > self.value:
             return None
         else:
             return Match(haystack, haystack)
@@ -322,7 +325,7 @@ class GT(Matcher):
     def __repr__(self):
         return "GT(" + repr(self.value) + ")"
     def getmatch(self, haystack):
-        if not isinstance(haystack, (int, float)) or haystack <= self.value:
+        if not _isnumber(haystack) or haystack <= self.value:
             return None
         else:
             return Match(haystack, haystack)
@@ -334,7 +337,7 @@ class GE(Matcher):
     def __repr__(self):
         return "GE(" + repr(self.value) + ")"
     def getmatch(self, haystack):
-        if not isinstance(haystack, (int, float)) or haystack < self.value:
+        if not _isnumber(haystack) or haystack < self.value:
             return None
         else:
             return Match(haystack, haystack)
@@ -382,7 +385,7 @@ class Any(Matcher):
         return "Any(" + ", ".join(map(repr, self.types)) + ")"
     def getmatch(self, haystack):
         if len(self.types) == 0 or isinstance(haystack, self.types):
-            return Match(haystack, haystack)
+            return Match(copy.deepcopy(haystack), copy.deepcopy(haystack))
         else:
             return None
 
-- 
2.43.0


From fb0ba36ae6ca4b6293bfacfdc669d504597d337d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:09 +0000
Subject: [PATCH 67/85] fix: chained documents compute the composition of their
 steps

engine() passed its arguments in the wrong positions; a version, embedded pools and literals of renamed types
could not be converted; pool deletions, new arrays and references to emit were not rewritten; recursive, repeated
and union types in links were refused or matched to the wrong alternative; begin and end blocks of several steps
shared one scope; and different input and output types of the same name were refused.
---
 titus/producer/chain.py | 107 +++++++++++++++++++++++++---------------
 1 file changed, 68 insertions(+), 39 deletions(-)

diff --git a/titus/producer/chain.py b/titus/producer/chain.py
index 86f0ad5..14984c0 100644
--- a/titus/producer/chain.py
+++ b/titus/producer/chain.py
@@ -69,6 +69,7 @@ from titus.pfaast import CellGet
 from titus.pfaast import CellTo
 from titus.pfaast import PoolGet
 from titus.pfaast import PoolTo
+from titus.pfaast import PoolDel
 from titus.pfaast import CastCase
 from titus.pfaast import Upcast
 
@@ -166,7 +167,7 @@ def engine(pfas, name=None, randseed=None, doc=None, version=None, metadata={},
     :rtype: titus.genpy.EngineConfig
     :return: a PFA document representing the chained workflow
     """
-    return PFAEngine.fromAst(ast(pfas, False, name, randseed, doc, version, metadata, options, tryYaml, verbose), options, sharedState, multiplicity, style, debug)
+    return PFAEngine.fromAst(ast(pfas, False, name, randseed, doc, version, metadata, options, tryYaml, verbose), options=options, sharedState=sharedState, multiplicity=multiplicity, style=style, debug=debug)
 
 def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, metadata={}, options={}, tryYaml=False, verbose=False):
     """Create a single PFA from a chained workflow, returning the result as an abstract syntax tree.
@@ -262,6 +263,8 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             originalNameToNewName[i][keyTypeName] = prefixType(i, pfa, typeName)
 
     # but any names in the input to the first and the output from the last should not be changed
+    # (unless they have the same name and are different types, in which case the input keeps the name)
+    trivialNames = {}
     def trivialName(i, avroType, memo):
         if isinstance(avroType, AvroArray):
             trivialName(i, avroType.items, memo)
@@ -272,20 +275,26 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                 trivialName(i, t, memo)
         elif isinstance(avroType, (AvroFixed, AvroEnum)):
             t = avroType.fullName
-            originalNameToNewName[i][t] = t
+            if trivialNames.setdefault(t, avroType) == avroType:
+                originalNameToNewName[i][t] = t
         elif isinstance(avroType, AvroRecord):
             t = avroType.fullName
             if t not in memo:
                 memo.add(t)
                 for f in avroType.fields:
                     trivialName(i, f.avroType, memo)
-                originalNameToNewName[i][t] = t
+                if trivialNames.setdefault(t, avroType) == avroType:
+                    originalNameToNewName[i][t] = t
     trivialName(0, pfas[0].input, set())
     trivialName(len(pfas) - 1, pfas[-1].output, set())
 
     # ensure that chained types match and will be given the same names
     if verbose: sys.stderr.write(time.asctime() + " Verifying that input/output schemas match along the chain\n")
-    def chainPair(i, first, second, memo):
+    def chainName(first, second, matched):
+        # one type of the second engine can't be two types of the first
+        return matched.setdefault(second.fullName, first.fullName) == first.fullName
+
+    def chainPair(first, second, matched):
         if isinstance(first, AvroNull) and isinstance(second, AvroNull):
             return True
         elif isinstance(first, AvroBoolean) and isinstance(second, AvroBoolean):
@@ -301,38 +310,38 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
         elif isinstance(first, AvroBytes) and isinstance(second, AvroBytes):
             return True
         elif isinstance(first, AvroFixed) and isinstance(second, AvroFixed):
-            if first.size == second.size:
-                originalNameToNewName[i + 1][second.fullName] = originalNameToNewName[i][first.fullName]
-                return True
-            else:
-                return False
+            return first.size == second.size and chainName(first, second, matched)
         elif isinstance(first, AvroString) and isinstance(second, AvroString):
             return True
         elif isinstance(first, AvroEnum) and isinstance(second, AvroEnum):
-            if first.symbols == second.symbols:
-                originalNameToNewName[i + 1][second.fullName] = originalNameToNewName[i][first.fullName]
-                return True
-            else:
-                return False
+            return first.symbols == second.symbols and chainName(first, second, matched)
         elif isinstance(first, AvroArray) and isinstance(second, AvroArray):
-            return chainPair(i, first.items, second.items, memo)
+            return chainPair(first.items, second.items, matched)
         elif isinstance(first, AvroMap) and isinstance(second, AvroMap):
-            return chainPair(i, first.values, second.values, memo)
+            return chainPair(first.values, second.values, matched)
         elif isinstance(first, AvroRecord) and isinstance(second, AvroRecord):
-            if first.fullName not in memo:
-                memo.add(first.fullName)
-                if len(first.fields) != len(second.fields):
-                    return False
-                for f1, f2 in zip(first.fields, second.fields):
-                    if f1.name != f2.name:
-                        return False
-                    elif not chainPair(i, f1.avroType, f2.avroType, memo):
-                        return False
-                originalNameToNewName[i + 1][second.fullName] = originalNameToNewName[i][first.fullName]
-                return True
+            if second.fullName in matched:
+                return matched[second.fullName] == first.fullName
+            before = dict(matched)
+            matched[second.fullName] = first.fullName
+            if len(first.fields) != len(second.fields) or \
+               not all(f1.name == f2.name and chainPair(f1.avroType, f2.avroType, matched) for f1, f2 in zip(first.fields, second.fields)):
+                matched.clear()
+                matched.update(before)
+                return False
+            return True
         elif isinstance(first, AvroUnion) and isinstance(second, AvroUnion):
+            if len(first.types) != len(second.types):
+                return False
+            unmatched = list(first.types)
             for yt in second.types:
-                if not any(chainPair(i, xt, yt, memo) for xt in first.types):
+                # prefer the alternative with the same name, in case several have the same structure
+                candidates = [xt for xt in unmatched if xt.name == yt.name] + [xt for xt in unmatched if xt.name != yt.name]
+                for xt in candidates:
+                    if chainPair(xt, yt, matched):
+                        unmatched = [zt for zt in unmatched if zt is not xt]
+                        break
+                else:
                     return False
             return True
         else:
@@ -340,8 +349,11 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
     for i in range(len(pfas) - 1):
         first = pfas[i].output
         second = pfas[i + 1].input
-        if not chainPair(i, first, second, set()):
+        matched = {}
+        if not chainPair(first, second, matched):
             raise PFAChainError("output of engine {0}: {1} not compatible with input of engine {2}: {3}".format(i + 1, ts(first), i + 2, ts(second)))
+        for secondName, firstName in list(matched.items()):
+            originalNameToNewName[i + 1][secondName] = originalNameToNewName[i][firstName]
 
     def rename(i, avroType, memo):
         if isinstance(avroType, AvroArray):
@@ -417,11 +429,14 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
              "actionsStarted": Cell(newPlaceholder(0, AvroLong()), jsonlib.dumps(0), False, False, CellPoolSource.EMBEDDED),
              "actionsFinished": Cell(newPlaceholder(0, AvroLong()), jsonlib.dumps(0), False, False, CellPoolSource.EMBEDDED)}
     if version is not None:
-        cells["version"] = Cell(newPlaceholder(0, AvroInt()), 0, False, False, CellPoolSource.EMBEDDED)
+        cells["version"] = Cell(newPlaceholder(0, AvroInt()), jsonlib.dumps(0), False, False, CellPoolSource.EMBEDDED)
     pools = {}
 
     if verbose: sys.stderr.write(time.asctime() + " Converting scoring engine algorithm\n")
 
+    # literal values can only be converted when all types have been resolved
+    literals = []
+
     # all code will go into user functions, including begin/action/end
     fcns = {}
 
@@ -455,7 +470,10 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                               [x.replace(lazyFcnReplacer) for x in expr.body],     # this is the one place where we should pass down fcnReplacer rather than self
                               expr.pos)
             elif isinstance(expr, FcnRef):
-                return FcnRef(prefixFcnRef(i, pfa, expr.name), expr.pos)
+                if pfa.method == Method.EMIT and i + 1 < len(pfas) and expr.name == "emit":
+                    return FcnRef("u." + nextActionFcnName, expr.pos)
+                else:
+                    return FcnRef(prefixFcnRef(i, pfa, expr.name), expr.pos)
             elif isinstance(expr, FcnRefFill):
                 return FcnRefFill(prefixFcnRef(i, pfa, expr.name),
                                   dict((k, v.replace(self)) for k, v in list(expr.fill.items())),
@@ -474,9 +492,11 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                                 [x.replace(self) for x in expr.args],
                                 expr.pos)
             elif isinstance(expr, Literal):
-                return Literal(newPlaceholder(i, expr.avroType),
-                               expr.value,
-                               expr.pos)
+                out = Literal(newPlaceholder(i, expr.avroType),
+                              expr.value,
+                              expr.pos)
+                literals.append((out, expr.avroType))
+                return out
             elif isinstance(expr, NewObject):
                 return NewObject(dict((k, v.replace(self)) for k, v in list(expr.fields.items())),
                                  newPlaceholder(i, expr.avroType),
@@ -504,6 +524,10 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                               expr.to.replace(self),
                               expr.init.replace(self),
                               expr.pos)
+            elif isinstance(expr, PoolDel):
+                return PoolDel(prefixPool(i, pfa, expr.pool),
+                               expr.dell.replace(self),
+                               expr.pos)
             elif isinstance(expr, CastCase):
                 return CastCase(newPlaceholder(i, expr.avroType),
                                 expr.named,
@@ -513,7 +537,7 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                 return Upcast(expr.expr.replace(self),
                               newPlaceholder(i, expr.avroType),
                               expr.pos)
-        genericReplacer.isDefinedAt = lambda x: isinstance(x, (FcnDef, FcnRef, FcnRefFill, CallUserFcn, Call, Literal, NewObject, CellGet, CellTo, PoolGet, PoolTo, CastCase, Upcast))
+        genericReplacer.isDefinedAt = lambda x: isinstance(x, (FcnDef, FcnRef, FcnRefFill, CallUserFcn, Call, Literal, NewObject, NewArray, CellGet, CellTo, PoolGet, PoolTo, PoolDel, CastCase, Upcast))
 
         def fcnReplacer(expr):
             return genericReplacer(expr, fcnReplacer)
@@ -531,7 +555,8 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             else:
                 return genericReplacer(expr, beginReplacer)
         beginReplacer.isDefinedAt = lambda x: isinstance(x, Ref) or genericReplacer.isDefinedAt(x)
-        begin.extend([x.replace(beginReplacer) for x in pfa.begin])
+        if len(pfa.begin) > 0:
+            begin.append(Do([x.replace(beginReplacer) for x in pfa.begin]))    # in a scope of its own, as other steps may use the same symbols
 
         # add statements to end
         def endReplacer(expr):
@@ -543,7 +568,8 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             else:
                 return genericReplacer(expr, endReplacer)
         endReplacer.isDefinedAt = lambda x: isinstance(x, Ref) or genericReplacer.isDefinedAt(x)
-        end.extend([x.replace(endReplacer) for x in pfa.end])
+        if len(pfa.end) > 0:
+            end.append(Do([x.replace(endReplacer) for x in pfa.end]))
 
         # convert the action into a user function
         def actionReplacer(expr):
@@ -611,8 +637,8 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
             pools[prefixPool(i, pfa, poolName)] = newPool
             if pool.source == "embedded":
                 def converter(avroType):
-                    original = jsonDecoder(pool.avroType, jsonlib.loads(pool.init))
-                    return jsonlib.dumps(jsonEncoder(avroType, original))
+                    original = dict((k, jsonDecoder(pool.avroType, jsonlib.loads(v))) for k, v in list(pool.init.items()))
+                    return dict((k, jsonlib.dumps(jsonEncoder(avroType, v))) for k, v in list(original.items()))
                 newPool.converter = converter
                 
     # make sure all the types work together
@@ -637,6 +663,9 @@ def ast(pfas, check=True, name=None, randseed=None, doc=None, version=None, meta
                 newPool = pools[prefixPool(i, pfa, poolName)]
                 newPool.init = newPool.converter(newPool.avroType)
 
+    for literal, originalType in literals:
+        literal.value = jsonlib.dumps(jsonEncoder(literal.avroType, jsonDecoder(originalType, jsonlib.loads(literal.value))))
+
     # randseed, doc, version, metadata, and options need to be explicitly set
 
     # return a (possibly checked) AST
-- 
2.43.0


From 34b739874902167aa131031b3fa341dcb7de21ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:09 +0000
Subject: [PATCH 68/85] fix: cast of an untagged record or map with a single
 item

Its key was taken for a union tag, so that no case matched.
---
 titus/genpy.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/titus/genpy.py b/titus/genpy.py
index f821b41..76416fd 100644
--- a/titus/genpy.py
+++ b/titus/genpy.py
@@ -969,10 +969,15 @@ def cast(state, scope, expr, fromType, cases, partial, parser):
 
     fromType = parser.getAvroType(fromType)
 
+    # a dict with a single item is only a tagged union if its key is a tag: it may be an untagged record or map
+    tags = [x.tag for x in fromType.types] if isinstance(fromType, titus.datatype.AvroUnion) else []
+    if any(x in tags for x in ("long", "float", "double")):
+        tags.extend(["int", "long", "float"])
+
     for name, toType, clause in cases:
         toType = parser.getAvroType(toType)
 
-        if isinstance(fromType, titus.datatype.AvroUnion) and isinstance(expr, dict) and len(expr) == 1:
+        if isinstance(expr, dict) and len(expr) == 1 and list(expr.keys())[0] in tags:
             tag, = list(expr.keys())
             value, = list(expr.values())
 
-- 
2.43.0


From 8ed79111330a138092b03af4b4c28801cec31ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:28 +0000
Subject: [PATCH 69/85] fix: PrettyPFA extraction binds tighter than operators,
 a minus sign is always an operator

---
 titus/prettypfa.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index dbe7ff3..ee75870 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -1269,7 +1269,7 @@ class Parser(object):
             return t
 
         def t_NUMBER(t):
-            r"-?(0|[1-9][0-9]*)(\.[0-9]*)?([eE][-+]?[0-9]+)?"
+            r"(0|[1-9][0-9]*)(\.[0-9]*)?([eE][-+]?[0-9]+)?"
             try:
                 t.value = Token("NUMBER", int(t.value), t.lexer.lineno)
             except ValueError:
@@ -1633,7 +1633,8 @@ class Parser(object):
                       ("left", "PLUS", "MINUS"),
                       ("left", "TIMES", "FDIV", "IDIV", "MOD", "REM"),
                       ("right", "UMINUS", "BITNOT"),
-                      ("left", "POW")]
+                      ("left", "POW"),
+                      ("left", "LBRACKET")]
 
         def p_expression_replacement(p):
             r'''expression : REPLACEMENT'''
@@ -1647,7 +1648,10 @@ class Parser(object):
         def p_expression_uminus(p):
             r'''expression : MINUS expression %prec UMINUS'''
             op, expr = p[1:]
-            p[0] = MiniCall("u-", [expr], op.lineno, op.lineno)
+            if isinstance(expr, MiniNumber):
+                p[0] = MiniNumber(-expr.value, op.lineno)
+            else:
+                p[0] = MiniCall("u-", [expr], op.lineno, op.lineno)
 
         def p_expression_bitnot(p):
             r'''expression : BITNOT expression'''
@@ -1790,12 +1794,15 @@ class Parser(object):
                 r'''cellpool : DOTNAME LPAREN arguments RPAREN "=" block
                              | DOTNAME LPAREN arguments RPAREN "=" bracketedargs
                              | DOTNAME LPAREN arguments RPAREN "=" NUMBER
+                             | DOTNAME LPAREN arguments RPAREN "=" MINUS NUMBER
                              | DOTNAME LPAREN arguments RPAREN "=" STRING
                              | DOTNAME LPAREN arguments RPAREN "=" RAWSTRING
                              | DOTNAME LPAREN arguments RPAREN "=" DOTNAME
                              | DOTNAME LPAREN arguments RPAREN "=" REPLACEMENT'''
                 name = p[1].v
                 token = p[6]
+                if len(p) > 7:
+                    token = Token("NUMBER", -p[7].v, p[7].lineno)
                 if isinstance(token, (Subs, ResolvedSubs)):
                     init = token
                     high = token.lineno
-- 
2.43.0


From c5c78d2457f7af34b080f3aa65202bd3a508830c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:28 +0000
Subject: [PATCH 70/85] fix: PrettyPFA integer literals beyond the int range
 are long

---
 titus/prettypfa.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index ee75870..bcf532e 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -495,7 +495,12 @@ class MiniNumber(MiniAst):
         return "MiniNumber({0})".format(repr(self.value))
     def asExpr(self, state):
         if isinstance(self.value, int):
-            return LiteralInt(self.value, self.pos)
+            if -2147483648 <= self.value <= 2147483647:
+                return LiteralInt(self.value, self.pos)
+            elif -9223372036854775808 <= self.value <= 9223372036854775807:
+                return LiteralLong(self.value, self.pos)
+            else:
+                raise PrettyPfaException("integer out of range: {0} at {1}".format(self.value, self.pos))
         else:
             return LiteralDouble(self.value, self.pos)
     def asJson(self):
-- 
2.43.0


From 2d111e1a1ac463cdced95e29b3b2210b51a01b90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:28 +0000
Subject: [PATCH 71/85] fix: PrettyPFA section headers after CRLF line ends

---
 titus/prettypfa.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index bcf532e..bc79a25 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -1261,7 +1261,7 @@ class Parser(object):
             def t_SECTION_HEADER(t):
                 r"(\r\n?|\n)+[a-z]+:"
                 t.lexer.lineno += len(re.findall(r"(\r\n?|\n)", t.value))
-                t.value = Token("SECTION_HEADER", t.value.lstrip("\n")[:-1], t.lexer.lineno)
+                t.value = Token("SECTION_HEADER", t.value.lstrip("\r\n")[:-1], t.lexer.lineno)
                 return t
 
         def t_DOTNAME(t):
-- 
2.43.0


From 9562cea23db0ee280ab4ddf4e480374a0b33b2b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:28 +0000
Subject: [PATCH 72/85] fix: PrettyPFA emit can be passed as a function in emit
 engines

---
 titus/prettypfa.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index bc79a25..94bf14a 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -1508,6 +1508,8 @@ class Parser(object):
                     for x in sectionDict["fcns"].content:
                         if isinstance(x, MiniNamedFcnDef):
                             state.functionNames.add("u." + x.name)
+                if _method == Method.EMIT:
+                    state.functionNames.add("emit")
                 state.cellNames = set(_cells.keys())
                 state.poolNames = set(_pools.keys())
 
-- 
2.43.0


From a19630a9925e5b7b51339c073d570863bda1c690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:28 +0000
Subject: [PATCH 73/85] fix: PrettyPFA enum symbols of aliased types

---
 titus/prettypfa.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index 94bf14a..59273ea 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -433,7 +433,8 @@ class MiniEnumSymbol(MiniAst):
     def __repr__(self):
         return "MiniEnumSymbols({0}, {1})".format(self.enumType, self.enumValue)
     def asExpr(self, state):
-        return Literal(state.avroTypeBuilder.makePlaceholder(jsonlib.dumps(self.enumType), state.avroTypeMemo), jsonlib.dumps(self.enumValue), self.pos)
+        enumType = state.avroTypeAlias.get(self.enumType, self.enumType)
+        return Literal(state.avroTypeBuilder.makePlaceholder(jsonlib.dumps(enumType), state.avroTypeMemo), jsonlib.dumps(self.enumValue), self.pos)
 
 class MiniDotName(MiniAst):
     """Mini-AST element representing a dotted name (string token with dots in it)."""
-- 
2.43.0


From a41ef5b55283b0b10624970a390740d7b762bed7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:54:28 +0000
Subject: [PATCH 74/85] fix: PrettyPFA names given as strings or substitutions

---
 titus/prettypfa.py | 17 +++++++++++++++--
 1 file changed, 15 insertions(+), 2 deletions(-)

diff --git a/titus/prettypfa.py b/titus/prettypfa.py
index 59273ea..7c5d28e 100644
--- a/titus/prettypfa.py
+++ b/titus/prettypfa.py
@@ -175,6 +175,19 @@ class Section(object):
     def __repr__(self):
         return "Section({0}, {1} at {2})".format(self.name, self.content, self.pos)
 
+    def engineName(self):
+        if isinstance(self.content, (list, tuple)):
+            if len(self.content) == 1:
+                self.content, = self.content
+            else:
+                raise PrettyPfaException("Only one item allowed in name section")
+        if isinstance(self.content, MiniDotName):
+            return self.content.name
+        elif isinstance(self.content, (MiniString, ResolvedSubs)):
+            return self.content.value
+        else:
+            raise PrettyPfaException("name must be a string at PrettyPFA line {0}".format(self.lineno))
+
     def input(self, state):
         if isinstance(self.content, (list, tuple)):
             if len(self.content) == 1:
@@ -721,7 +734,7 @@ class MiniCall(MiniAst):
             if len(self.args) == 2:
                 if isinstance(self.args[1], MiniDotName):
                     namespace, name = split(self.args[1].name)
-                elif isinstance(self.args[1], MiniDotName):
+                elif isinstance(self.args[1], ResolvedSubs):
                     namespace, name = split(self.args[1].value)
                 else:
                     raise PrettyPfaException("fixed type second argument should be an identifier, not \"{0}\", at {1}".format(type(self.args[1]), self.pos))
@@ -1484,7 +1497,7 @@ class Parser(object):
                 _options = {}
 
                 if "name" in keys:
-                    _name = sectionDict["name"].content.name
+                    _name = sectionDict["name"].engineName()
                 else:
                     _name = titus.util.uniqueEngineName()
 
-- 
2.43.0


From 519b57d212f007d1cdde849aa78b00f162407d49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:18 +0000
Subject: [PATCH 75/85] fix: distances other than the Euclidean one in k-means
 documents

---
 titus/producer/kmeans.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/titus/producer/kmeans.py b/titus/producer/kmeans.py
index eb78321..98ec4d7 100644
--- a/titus/producer/kmeans.py
+++ b/titus/producer/kmeans.py
@@ -85,8 +85,6 @@ class SquaredEuclidean(Metric):
         self.calculate = lambda dataset, cluster: numpy.sum(numpy.square(similarity.calculate(dataset, cluster)), axis=1)
         self.similarity = similarity
     def pfa(self, x, y):
-        x = "metricX"
-        y = "metricY"
         return {"metric.squaredEuclidean": [self.similarity.pfa(), x, y]}
 
 class Chebyshev(Metric):
@@ -95,8 +93,6 @@ class Chebyshev(Metric):
         self.calculate = lambda dataset, cluster: numpy.max(similarity.calculate(dataset, cluster), axis=1)
         self.similarity = similarity
     def pfa(self, x, y):
-        x = "metricX"
-        y = "metricY"
         return {"metric.chebyshev": [self.similarity.pfa(), x, y]}
 
 class Taxicab(Metric):
@@ -105,19 +101,15 @@ class Taxicab(Metric):
         self.calculate = lambda dataset, cluster: numpy.sum(similarity.calculate(dataset, cluster), axis=1)
         self.similarity = similarity
     def pfa(self, x, y):
-        x = "metricX"
-        y = "metricY"
         return {"metric.taxicab": [self.similarity.pfa(), x, y]}
 
 class Minkowski(Metric):
     """Minkowski metric for Numpy and PFA."""
     def __init__(self, similarity, p):
-        self.calculate = lambda dataset, cluster: numpy.pow(numpy.sum(numpy.pow(similarity.calculate(dataset, cluster), p), axis=1), 1.0/p)
+        self.calculate = lambda dataset, cluster: numpy.power(numpy.sum(numpy.power(similarity.calculate(dataset, cluster), p), axis=1), 1.0/p)
         self.similarity = similarity
         self.p = p
     def pfa(self, x, y):
-        x = "metricX"
-        y = "metricY"
         return {"metric.minkowski": [self.similarity.pfa(), x, y, self.p]}
 
 ### stopping conditions are functions that take iterationNumber (int),
-- 
2.43.0


From 26fd382fb2f7823015d5bfea591180bc265b61b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:27 +0000
Subject: [PATCH 76/85] fix: name of the population field in k-means documents

---
 titus/producer/kmeans.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/kmeans.py b/titus/producer/kmeans.py
index 98ec4d7..356cf49 100644
--- a/titus/producer/kmeans.py
+++ b/titus/producer/kmeans.py
@@ -582,7 +582,7 @@ class KMeans(object):
 
         if populations:
             populationsField = '''
-    populations: int,
+    population: int,
 '''
         else:
             populationsField = ""
-- 
2.43.0


From 309c2207502ddb7dd16375cad337002542dba353 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:24:44 +0000
Subject: [PATCH 77/85] fix: weighted k-means

---
 titus/producer/kmeans.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/titus/producer/kmeans.py b/titus/producer/kmeans.py
index 356cf49..8c30723 100644
--- a/titus/producer/kmeans.py
+++ b/titus/producer/kmeans.py
@@ -396,10 +396,6 @@ class KMeans(object):
             selection = (indexOfClosestCluster == clusterIndex)
             residuals = (dataset - cluster)[selection]
 
-            # weights scale the residuals
-            if weights is not None:
-                residuals *= weights[selection]
-
             if self.minPointsInCluster is not None and numpy.sum(selection) < self.minPointsInCluster:
                 # too few points in this cluster; jump to a new random point
                 self.clusters[clusterIndex] = self.newCluster()
@@ -409,7 +405,11 @@ class KMeans(object):
             else:
                 # compute the mean of the displacements of points associated with this cluster
                 # (note that the similarity metric used here is the trivial one, possibly different from the classification metric)
-                correction = residuals.mean(axis=0)
+                # (weights scale the residuals)
+                if weights is None:
+                    correction = residuals.mean(axis=0)
+                else:
+                    correction = weights[selection].dot(residuals) / weights[selection].sum()
                 numpy.add(cluster, correction, cluster)
 
                 if not numpy.isfinite(cluster).all():
-- 
2.43.0


From 3737bbe009084717b22edd4dfd8f07cac2095cc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:13 +0000
Subject: [PATCH 78/85] fix: number of records above a threshold in
 classification trees

---
 titus/producer/cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/cart.py b/titus/producer/cart.py
index 4de8447..9a3bc99 100644
--- a/titus/producer/cart.py
+++ b/titus/producer/cart.py
@@ -387,7 +387,7 @@ class TreeNode(object):
         
         # for normalizing
         numInSelection = numpy.arange(1, self.datasetSize + 1, dtype=numpy.dtype(float))
-        numNotInSelection = numpy.arange(self.datasetSize, 0, -1, dtype=numpy.dtype(float))
+        numNotInSelection = numpy.arange(self.datasetSize - 1, -1, -1, dtype=numpy.dtype(float))
 
         # sum over the values array using Numpy iteration
         selectionEntropy = numpy.zeros(self.datasetSize, dtype=numpy.dtype(float))
-- 
2.43.0


From 8e16dc25287e6633f427e4cdedadb8f5fc8fb223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:13 +0000
Subject: [PATCH 79/85] fix: thresholds between equal values in decision trees

---
 titus/producer/cart.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/titus/producer/cart.py b/titus/producer/cart.py
index 9a3bc99..213ba50 100644
--- a/titus/producer/cart.py
+++ b/titus/producer/cart.py
@@ -419,6 +419,8 @@ class TreeNode(object):
         # calculate gain for all possible index splits
         # (even if some are not unique--- it's faster to just have Numpy scan over them than to try to skip them)
         gains = -(numInSelection/self.datasetSize)*selectionEntropy - (numNotInSelection/self.datasetSize)*antiSelectionEntropy
+        # equal values cannot be separated
+        gains[:-1][values[:-1] == values[1:]] = -numpy.inf
 
         # find the highest gain, preferring larger indexes if there's a tie
         # (that's why we reverse the order of the list with [::-1] and then correct for the index for the reversal)
@@ -549,6 +551,8 @@ class TreeNode(object):
         # calculate gain for all possible index splits
         # (even if some are not unique--- it's faster to just have Numpy scan over them than to try to skip them)
         gains = -nTimesVarianceInSelection - nTimesVarianceInAntiselection
+        # equal values cannot be separated
+        gains[values[:-1] == values[1:]] = -numpy.inf
 
         # find the highest gain, preferring larger indexes if there's a tie
         # (that's why we reverse the order of the list with [::-1] and then correct for the index for the reversal)
-- 
2.43.0


From 8ce5a01d810b65c699fdbde3dfb60bdf6e9cc833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:13 +0000
Subject: [PATCH 80/85] fix: categories of a split below the root of a
 regression tree

---
 titus/producer/cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/cart.py b/titus/producer/cart.py
index 213ba50..0efed28 100644
--- a/titus/producer/cart.py
+++ b/titus/producer/cart.py
@@ -634,7 +634,7 @@ class TreeNode(object):
                 # find the best one
                 if bestGainTerm is None or gainTerm > bestGainTerm:
                     bestGainTerm = gainTerm
-                    bestCombination = categorySet
+                    bestCombination = tuple(fieldUniques[selection])
 
         return bestGainTerm, bestCombination
 
-- 
2.43.0


From 1e2833d7333c039b65815546d5846c4f57f35efb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:13 +0000
Subject: [PATCH 81/85] fix: pure nodes of a classification tree are leaves

---
 titus/producer/cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/cart.py b/titus/producer/cart.py
index 0efed28..a8b7803 100644
--- a/titus/producer/cart.py
+++ b/titus/producer/cart.py
@@ -270,7 +270,7 @@ class TreeNode(object):
         if self.predictand.tpe == numbers.Real:
             return len(self.predictandUnique) > 1
         elif self.predictand.tpe == str:
-            return numpy.count_nonzero(self.predictandDistribution) > 0
+            return numpy.count_nonzero(self.predictandDistribution) > 1
         else:
             raise RuntimeError
 
-- 
2.43.0


From 307bee3e59f3cd08e54c244ebffa9a8b73317704 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:25:13 +0000
Subject: [PATCH 82/85] fix: type of scoreDistribution in classification trees

---
 titus/producer/cart.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/cart.py b/titus/producer/cart.py
index a8b7803..1a7de79 100644
--- a/titus/producer/cart.py
+++ b/titus/producer/cart.py
@@ -773,7 +773,7 @@ class TreeNode(object):
         if predictandDistribution:
             if self.predictand.tpe != str:
                 raise TypeError("predictandDistribution can only be used if the predictand is a string (classification trees)")
-            out["fields"].append({"name": "scoreDistribution", "type": {"type": "map", "values": "int"}})
+            out["fields"].append({"name": "scoreDistribution", "type": {"type": "map", "values": "double"}})
 
         if predictandUnique:
             out["fields"].append({"name": "scoreValues", "type": {"type": "array", "items": scoreType}})
-- 
2.43.0


From 3b215316073f017e95e93bd895000d324ab3c5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:33 +0000
Subject: [PATCH 83/85] fix: remainder in transformations of Numpy data

---
 titus/producer/transformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/transformation.py b/titus/producer/transformation.py
index fe9b6a6..e410d27 100644
--- a/titus/producer/transformation.py
+++ b/titus/producer/transformation.py
@@ -53,7 +53,7 @@ class Transformation(object):
         "u-": "numpy.negative",
         "**": "numpy.power",
         "%": "numpy.mod",
-        "%%": "numpy.remainder",
+        "%%": "numpy.fmod",
         
         "==": "numpy.equal",
         "!=": "numpy.not_equal",
-- 
2.43.0


From dc336c1e3c4daa7b68ab93dfbf8be8c87f539e8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:33 +0000
Subject: [PATCH 84/85] fix: rounding in transformations of Numpy data

---
 titus/producer/transformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/titus/producer/transformation.py b/titus/producer/transformation.py
index e410d27..1ac427c 100644
--- a/titus/producer/transformation.py
+++ b/titus/producer/transformation.py
@@ -81,7 +81,7 @@ class Transformation(object):
         "m.hypot": "numpy.hypot",
         "m.ln": "numpy.log",
         "m.log10": "numpy.log10",
-        "m.round": "numpy.round",
+        "m.round": "(lambda x: numpy.floor(x + 0.5))",
         "m.rint": "numpy.rint",
         "m.sin": "numpy.sin",
         "m.sinh": "numpy.sinh",
-- 
2.43.0


From 72f801cbed1bf655bc1a0c7646a696c626f7cfea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:36:33 +0000
Subject: [PATCH 85/85] fix: literal strings in transformations

---
 titus/producer/transformation.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/titus/producer/transformation.py b/titus/producer/transformation.py
index 1ac427c..55ba2f5 100644
--- a/titus/producer/transformation.py
+++ b/titus/producer/transformation.py
@@ -103,6 +103,8 @@ class Transformation(object):
         """
 
         if isinstance(x, dict):
+            if set(x.keys()).difference(["@"]) == set(["string"]):
+                return []    # literal string
             return sum((Transformation.findFields(v) for k, v in list(x.items()) if k != "@"), [])
         elif isinstance(x, (list, tuple)):
             return sum((Transformation.findFields(xi) for xi in x), [])
@@ -124,6 +126,8 @@ class Transformation(object):
         """
 
         if isinstance(x, dict):
+            if set(x.keys()).difference(["@"]) == set(["string"]):
+                return x     # literal string
             return dict((k, Transformation.replace(v, subs)) for k, v in list(x.items()))
         elif isinstance(x, (list, tuple)):
             return [Transformation.replace(xi, subs) for xi in x]
-- 
2.43.0

