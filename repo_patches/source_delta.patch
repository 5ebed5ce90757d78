From 6dae43f0fc571fe27958459d7f9d672c20911882 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:42 +0000
Subject: [PATCH 01/10] fix: --convert-nan-to-null never converted NaN

NaN compares unequal to everything, including math.nan, so NaN values were
kept and the JSON encoder then rejected them.
---
 palworld_save_tools/archive.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 0a5dc3b..bd66f5b 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -333,7 +333,7 @@ class FArchiveReader:
         val = FArchiveReader.unpack_float(self.data.read(4))[0]
         if self.allow_nan:
             return val
-        if val == math.nan or val == math.inf or val == -math.inf:
+        if not math.isfinite(val):
             return None
         return val
 
@@ -343,7 +343,7 @@ class FArchiveReader:
         val = FArchiveReader.unpack_double(self.data.read(8))[0]
         if self.allow_nan:
             return val
-        if val == math.nan or val == math.inf or val == -math.inf:
+        if not math.isfinite(val):
             return None
         return val
 
-- 
2.43.0


From c764c8068ce310452ad6fdf361263637e6c62e8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:42 +0000
Subject: [PATCH 02/10] fix: write Guid arrays, which the reader already
 accepts

---
 palworld_save_tools/archive.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index bd66f5b..9a6e56f 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -963,6 +963,8 @@ class FArchiveWriter:
                 self.fstring(values[i])
             elif array_type == "BoolProperty":
                 self.bool(values[i])
+            elif array_type == "Guid":
+                self.guid(values[i])
             elif array_type == "ByteProperty":
                 self.byte(values[i])
             else:
-- 
2.43.0


From c3411ede32a27e4940620a05cb664c83dd5f6de1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:42 +0000
Subject: [PATCH 03/10] fix: write back work entries that were kept as raw
 bytes

Entries of an unknown work type or with an unknown transform type are read
as raw bytes, but writing them failed.
---
 palworld_save_tools/rawdata/work.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/palworld_save_tools/rawdata/work.py b/palworld_save_tools/rawdata/work.py
index 5915f05..fb07638 100644
--- a/palworld_save_tools/rawdata/work.py
+++ b/palworld_save_tools/rawdata/work.py
@@ -159,11 +159,13 @@ def encode(
     del properties["custom_type"]
     for work_element in properties["value"]["values"]:
         work_type = work_element["WorkableType"]["value"]["value"]
-        work_element["RawData"]["value"] = {
-            "values": [
-                b for b in encode_bytes(work_element["RawData"]["value"], work_type)
-            ]
-        }
+        # Work types that could not be parsed were kept as raw bytes
+        if "values" not in work_element["RawData"]["value"]:
+            work_element["RawData"]["value"] = {
+                "values": [
+                    b for b in encode_bytes(work_element["RawData"]["value"], work_type)
+                ]
+            }
         for work_assign in work_element["WorkAssignMap"]["value"]:
             work_assign["value"]["RawData"]["value"] = {
                 "values": [
@@ -248,7 +250,7 @@ def encode_bytes(p: dict[str, Any], work_type: str) -> bytes:
         print(
             f"Unknown EPalWorkTransformType, please report this: {transform_type}: {work_type}"
         )
-        writer.write(p["transform"]["raw_data"])
+        writer.write(bytes(p["transform"]["raw_data"]))
 
     encoded_bytes = writer.bytes()
     return encoded_bytes
-- 
2.43.0


From 755f2e5affaf473d9ee7d99bb0517f042958fe32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:46:42 +0000
Subject: [PATCH 04/10] fix: keep base camp module data that was not fully
 parsed

Left-over bytes were dropped with a warning and lost when converting back.
---
 palworld_save_tools/rawdata/base_camp_module.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/rawdata/base_camp_module.py b/palworld_save_tools/rawdata/base_camp_module.py
index 023ca4f..a36774b 100644
--- a/palworld_save_tools/rawdata/base_camp_module.py
+++ b/palworld_save_tools/rawdata/base_camp_module.py
@@ -89,7 +89,8 @@ def decode_bytes(
         return {"values": b_bytes}
 
     if not reader.eof():
-        print(f"Warning: EOF not reached for {module_type}")
+        print(f"Warning: EOF not reached for {module_type}, keeping raw bytes")
+        return {"values": b_bytes}
 
     return data
 
-- 
2.43.0


From c8ce80827af3712ad7c661d168073c6ec58ca324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:00 +0000
Subject: [PATCH 05/10] fix: reject strings and identifiers that are cut short

A string or identifier at the end of truncated data was silently read as a
shorter one, so truncated saves and records were accepted with made-up values,
and a bogus element count could loop without ever reaching an error.
---
 palworld_save_tools/archive.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 9a6e56f..2051a88 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -277,10 +277,16 @@ class FArchiveReader:
         encoding: str
         if size < 0:
             size = -size
-            data = reader.read(size * 2)[:-2]
+            data = reader.read(size * 2)
+            if len(data) != size * 2:
+                raise Exception(f"could not read {size * 2} bytes for string")
+            data = data[:-2]
             encoding = "utf-16-le"
         else:
-            data = reader.read(size)[:-1]
+            data = reader.read(size)
+            if len(data) != size:
+                raise Exception(f"could not read {size} bytes for string")
+            data = data[:-1]
             encoding = "ascii"
 
         try:
@@ -360,12 +366,15 @@ class FArchiveReader:
 
     def guid(self) -> UUID:
         # in the hot loop, avoid function calls
-        return UUID(self.data.read(16))
+        b = self.data.read(16)
+        if len(b) != 16:
+            raise Exception("could not read 16 bytes for uuid")
+        return UUID(b)
 
     def optional_guid(self) -> Optional[UUID]:
         # in the hot loop, avoid function calls
         if self.data.read(1)[0]:
-            return UUID(self.data.read(16))
+            return self.guid()
         return None
 
     def tarray(self, type_reader: Callable[["FArchiveReader"], Any]) -> list[Any]:
-- 
2.43.0


From e6ec31a27ba3281f60227a725e9bf15d293e223f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:00 +0000
Subject: [PATCH 06/10] fix: writing a save no longer destroys the loaded data

The custom property encoders replaced decoded data with raw bytes in place, so
a second write, or a dump after a write, of the same GvasFile failed.
---
 palworld_save_tools/archive.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 2051a88..6eb561d 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -1,3 +1,4 @@
+import copy
 import io
 import math
 import os
@@ -827,8 +828,10 @@ class FArchiveWriter:
     def property_inner(self, property_type: str, property: dict[str, Any]) -> int:
         if "custom_type" in property:
             if property["custom_type"] in self.custom_properties:
+                # The encoders replace decoded data with raw bytes in place, so hand
+                # them a copy to leave the caller's data intact.
                 size = self.custom_properties[property["custom_type"]][1](
-                    self, property_type, property
+                    self, property_type, copy.deepcopy(property)
                 )
             else:
                 raise Exception(
-- 
2.43.0


From 9059bb07f2a70d35d66d215fa71e7e7662a6122d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:47 +0000
Subject: [PATCH 07/10] fix: make --to-json/--from-json override the file
 extension

With a flag that contradicted the extension both conversions ran, a file with
an unknown extension and no flag was silently ignored with exit status 0, and
the default output of a JSON conversion could be the input file itself or a
path in another directory when '.json' occurred elsewhere in the path.
---
 palworld_save_tools/commands/convert.py | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/palworld_save_tools/commands/convert.py b/palworld_save_tools/commands/convert.py
index 772ef9d..cd1ebfa 100644
--- a/palworld_save_tools/commands/convert.py
+++ b/palworld_save_tools/commands/convert.py
@@ -63,7 +63,19 @@ def main():
         print(f"{args.filename} is not a file")
         exit(1)
 
-    if args.to_json or args.filename.endswith(".sav"):
+    if args.to_json or args.from_json:
+        to_json = args.to_json
+    elif args.filename.endswith(".sav"):
+        to_json = True
+    elif args.filename.endswith(".json"):
+        to_json = False
+    else:
+        print(
+            f"Cannot tell how to convert {args.filename}, specify --to-json or --from-json"
+        )
+        exit(1)
+
+    if to_json:
         if not args.output:
             output_path = args.filename + ".json"
         else:
@@ -76,12 +88,13 @@ def main():
             allow_nan=(not args.convert_nan_to_null),
             custom_properties_keys=args.custom_properties,
         )
-
-    if args.from_json or args.filename.endswith(".json"):
-        if not args.output:
-            output_path = args.filename.replace(".json", "")
-        else:
+    else:
+        if args.output:
             output_path = args.output
+        elif args.filename.endswith(".json"):
+            output_path = args.filename[: -len(".json")]
+        else:
+            output_path = args.filename + ".sav"
         convert_json_to_sav(args.filename, output_path, force=args.force)
 
 
-- 
2.43.0


From 16b2a1262b2cc32b6c7dba1722dba11400970eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 15:47:47 +0000
Subject: [PATCH 08/10] fix: never leave a truncated output file behind

The output was truncated and rewritten in place, so an error, interrupt, full
disk or crash while writing destroyed the previous file and left a partial one.
Write to a temporary file in the same directory and move it into place.
---
 palworld_save_tools/commands/convert.py | 32 +++++++++++++++++++++++--
 1 file changed, 30 insertions(+), 2 deletions(-)

diff --git a/palworld_save_tools/commands/convert.py b/palworld_save_tools/commands/convert.py
index cd1ebfa..f1a82fb 100644
--- a/palworld_save_tools/commands/convert.py
+++ b/palworld_save_tools/commands/convert.py
@@ -1,8 +1,11 @@
 #!/usr/bin/env python3
 
 import argparse
+import contextlib
 import json
 import os
+import shutil
+import uuid
 
 from palworld_save_tools.gvas import GvasFile
 from palworld_save_tools.json_tools import CustomEncoder
@@ -128,7 +131,7 @@ def convert_sav_to_json(
         raw_gvas, PALWORLD_TYPE_HINTS, custom_properties, allow_nan=allow_nan
     )
     print(f"Writing JSON to {output_path}")
-    with open(output_path, "w", encoding="utf8") as f:
+    with open_output(output_path, "w", encoding="utf8") as f:
         indent = None if minify else "\t"
         json.dump(
             gvas_file.dump(), f, indent=indent, cls=CustomEncoder, allow_nan=allow_nan
@@ -158,10 +161,35 @@ def convert_json_to_sav(filename, output_path, force=False):
         gvas_file.write(PALWORLD_CUSTOM_PROPERTIES), save_type
     )
     print(f"Writing SAV file to {output_path}")
-    with open(output_path, "wb") as f:
+    with open_output(output_path, "wb") as f:
         f.write(sav_file)
 
 
+@contextlib.contextmanager
+def open_output(path, mode, **kwargs):
+    """Open a temporary file that replaces path once it is completely written"""
+    # Replace the target of a symlink instead of the link itself
+    path = os.path.realpath(path)
+    if os.path.exists(path) and not os.path.isfile(path):
+        # Devices and pipes can only be written to directly
+        with open(path, mode, **kwargs) as f:
+            yield f
+        return
+    temp_path = os.path.join(os.path.dirname(path), f".{uuid.uuid4().hex}.tmp")
+    try:
+        with open(temp_path, mode.replace("w", "x"), **kwargs) as f:
+            yield f
+            f.flush()
+            os.fsync(f.fileno())
+        if os.path.exists(path):
+            shutil.copymode(path, temp_path)
+        os.replace(temp_path, path)
+    except BaseException:
+        with contextlib.suppress(OSError):
+            os.unlink(temp_path)
+        raise
+
+
 def confirm_prompt(question: str) -> bool:
     reply = None
     while reply not in ("y", "n"):
-- 
2.43.0


From d81da5ed92a5ee43c57e61510f8225e5c610a6d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:21 +0000
Subject: [PATCH 09/10] fix: refuse static arrays, removed map keys and array
 ids instead of dropping them

A repeated property name overwrote the earlier value, and an array index,
the keys a map removes and the id flag of an array were read and forgotten,
so a conversion there and back silently lost data.
---
 palworld_save_tools/archive.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 6eb561d..6c19b30 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -393,6 +393,10 @@ class FArchiveReader:
                 break
             type_name = self.fstring()
             size = self.u64()
+            if name in properties or size >> 32:
+                # The elements of a static array repeat the name and have an
+                # index (the upper half of size), which can not be represented
+                raise Exception(f"Static array is not supported: {path}.{name}")
             properties[name] = self.property(type_name, size, f"{path}.{name}")
         return properties
 
@@ -464,7 +468,8 @@ class FArchiveReader:
             key_type = self.fstring()
             value_type = self.fstring()
             _id = self.optional_guid()
-            self.u32()
+            if self.u32() != 0:
+                raise Exception(f"Removed map keys are not supported: {path}")
             count = self.u32()
             key_path = path + ".Key"
             if key_type == "StructProperty":
@@ -555,7 +560,8 @@ class FArchiveReader:
             self.u64()
             type_name = self.fstring()
             _id = self.guid()
-            self.skip(1)
+            if self.optional_guid() is not None:
+                raise Exception(f"Property id of an array is not supported: {path}")
             prop_values = []
             for _ in range(count):
                 prop_values.append(self.struct_value(type_name, f"{path}.{prop_name}"))
-- 
2.43.0


From 888ba18ca4d85af271569bf64941352eea640f49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:03:21 +0000
Subject: [PATCH 10/10] fix: refuse strings without a terminator

The last character of such a string was taken for the terminator and lost.
---
 palworld_save_tools/archive.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/palworld_save_tools/archive.py b/palworld_save_tools/archive.py
index 6c19b30..b0da709 100644
--- a/palworld_save_tools/archive.py
+++ b/palworld_save_tools/archive.py
@@ -281,12 +281,16 @@ class FArchiveReader:
             data = reader.read(size * 2)
             if len(data) != size * 2:
                 raise Exception(f"could not read {size * 2} bytes for string")
+            if data[-2:] != b"\x00\x00":
+                raise Exception(f"string is not terminated: {bytes(data)!r}")
             data = data[:-2]
             encoding = "utf-16-le"
         else:
             data = reader.read(size)
             if len(data) != size:
                 raise Exception(f"could not read {size} bytes for string")
+            if data[-1] != 0:
+                raise Exception(f"string is not terminated: {bytes(data)!r}")
             data = data[:-1]
             encoding = "ascii"
 
-- 
2.43.0

