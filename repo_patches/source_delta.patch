From 4f17b5612fd26c5022bc5ed96663b4f146ae9d58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:56 +0000
Subject: [PATCH 001/190] fix: represent non-BMP characters as surrogate pair
 escapes in .properties

With ensure_ascii, characters outside the BMP were serialized as five-digit
\u escapes, which no parser reads back. Escaped surrogate pairs were parsed
as two lone surrogates.
---
 python/moz/l10n/formats/properties/parse.py     | 8 ++++++--
 python/moz/l10n/formats/properties/serialize.py | 4 +++-
 2 files changed, 9 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index 10f5881..5e394a2 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -30,12 +30,16 @@ class LineKind(Enum):
     VALUE = 3
 
 
-esc_re = compile("\\\\(u[0-9A-Fa-f]{1,4}|.)")
+esc_re = compile(
+    r"\\(u[Dd][89ABab][0-9A-Fa-f]{2}\\u[Dd][C-Fc-f][0-9A-Fa-f]{2}|u[0-9A-Fa-f]{1,4}|.)"
+)
 
 
 def esc_parse(match: Match[str]) -> str:
     esc = match.group(1)
-    if len(esc) > 1 and esc[0] == "u":
+    if len(esc) > 5:
+        return bytes.fromhex(esc[1:5] + esc[7:]).decode("utf-16-be")
+    elif len(esc) > 1 and esc[0] == "u":
         n = int(esc[1:], 16)
         return chr(n)
     elif esc == "t":
diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index 83a2075..8398d93 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -37,7 +37,9 @@ def encode_char(m: Match[str]) -> str:
         return r"\f"
     elif ch == "\r":
         return r"\r"
-    return f"\\u{ord(ch):04x}"
+    # Characters outside the BMP are represented by a surrogate pair
+    utf16 = ch.encode("utf-16-be", "surrogatepass").hex()
+    return "".join(f"\\u{utf16[i : i + 4]}" for i in range(0, len(utf16), 4))
 
 
 def escape_chars(value: str, ensure_ascii: bool) -> str:
-- 
2.43.0


From 9529d16ab5b18e03179c70cafa00ba1a6096b1a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:56 +0000
Subject: [PATCH 002/190] fix: escape a leading # or ! in .properties keys

Otherwise the serialized entry is read back as a comment.
---
 python/moz/l10n/formats/properties/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index 8398d93..336cb45 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -111,6 +111,8 @@ def properties_serialize(
                 key = id_prefix + ".".join(entry.id)
                 key = escape_chars(key, ensure_ascii)
                 key = key.translate(special_key_trans)
+                if key.startswith(("#", "!")):
+                    key = "\\" + key
 
                 value: str
                 msg = entry.value
-- 
2.43.0


From 03c228c9b5f45cb6af396bc1b1123f64673217fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:56 +0000
Subject: [PATCH 003/190] fix: process escapes before printf placeholders in
 properties_parse_message

---
 python/moz/l10n/formats/properties/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index 5e394a2..c7c0e9f 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -155,7 +155,7 @@ def properties_parse_message(
     if kind != LineKind.VALUE or not all(kind == LineKind.EMPTY for kind, _, _ in rest):
         raise ValueError("Source is not a .properties value")
     if printf_placeholders:
-        return PatternMessage(list(parse_printf_pattern(source)))
+        return PatternMessage(list(parse_printf_pattern(value)))
     return PatternMessage([value])
 
 
-- 
2.43.0


From 1ee703aea15826492107b7855e0e2259c34e912a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:47:56 +0000
Subject: [PATCH 004/190] fix: count continuation lines at the end of a
 .properties file in linepos.end

---
 python/moz/l10n/formats/properties/parse.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index c7c0e9f..0cee4ef 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -96,9 +96,9 @@ def properties_parse(
             else:
                 assert isinstance(entry.value, PatternMessage)
                 entry.value.pattern.append(value)
-            if entry.linepos and line > entry.linepos.key:
+            if entry.linepos:
                 entry.linepos.value = line
-                entry.linepos.end = line + 1
+                entry.linepos.end = parser.value_end
             entry = None
         else:
             if prev_linepos:
@@ -164,6 +164,7 @@ class PropertiesParser:
         self.source = source
         self.pos = 0
         self.line_pos = 1
+        self.value_end = 1
         self.at_value = False
         self.done = False
 
@@ -216,6 +217,7 @@ class PropertiesParser:
                         at_escape = True
             self.pos = end = start + idx + 1
             lines.append(self.source[line_start:end])
+            self.value_end = self.line_pos + 1
             self.nl()
             value = "".join(
                 esc_re.sub(esc_parse, line.lstrip("\f\t ")) for line in lines
-- 
2.43.0


From d2ea310304436c22dba6d055ba8190762e07f37e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:48 +0000
Subject: [PATCH 005/190] fix: support more than one successive external entity
 reference in DTD

Two references with no entity or comment between them were rejected,
also when they had been written by dtd_serialize().
---
 python/moz/l10n/formats/dtd/parse.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/dtd/parse.py b/python/moz/l10n/formats/dtd/parse.py
index fb6aae3..adeae61 100644
--- a/python/moz/l10n/formats/dtd/parse.py
+++ b/python/moz/l10n/formats/dtd/parse.py
@@ -67,9 +67,11 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
     resource = Resource(Format.dtd, [Section((), entries)])
 
     def handle_other_content(entry: str) -> None:
-        if sm := re_system_include.fullmatch(entry):
+        pos = 0
+        while sm := re_system_include.match(entry, pos):
             resource.meta.append(Metadata(sm[1], sm[2][1:-1]))
-        elif entry and not entry.isspace():
+            pos = sm.end()
+        if len(entry) > pos and not entry[pos:].isspace():
             raise ValueError(f"Unexpected content in DTD: {entry}")
 
     pos = 0
-- 
2.43.0


From baafc9bedbcca46088b73cf1ad1895db1e81e5ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:51:49 +0000
Subject: [PATCH 006/190] fix: keep the last comment of a DTD file standalone
 if an empty line follows it

The empty line was only taken into account for comments followed by another comment,
so a resource comment was attached to the first entity if there were no further comments.
---
 python/moz/l10n/formats/dtd/parse.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/moz/l10n/formats/dtd/parse.py b/python/moz/l10n/formats/dtd/parse.py
index adeae61..f46a2a1 100644
--- a/python/moz/l10n/formats/dtd/parse.py
+++ b/python/moz/l10n/formats/dtd/parse.py
@@ -115,6 +115,12 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
         for entry in dtd_iter(source, pos):
             if isinstance(entry, str):
                 handle_other_content(entry)
+                if comment and entry.count("\n") > 1:
+                    if entries or resource.comment:
+                        entries.append(Comment(comment))
+                    else:
+                        resource.comment = comment
+                    comment = ""
             else:
                 if comment:
                     entry.comment = comment
-- 
2.43.0


From 54fb91ebff28b5e8a21ec41c38486e2d65df8fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 007/190] fix: parse a bare # within an .inc comment as an
 empty comment line

This is how inc_serialize() represents it.
---
 python/moz/l10n/formats/inc/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/inc/parse.py b/python/moz/l10n/formats/inc/parse.py
index 0c3c8b1..500e213 100644
--- a/python/moz/l10n/formats/inc/parse.py
+++ b/python/moz/l10n/formats/inc/parse.py
@@ -39,7 +39,7 @@ def inc_parse(source: str | bytes) -> Resource[Message]:
             if comment:
                 entries.append(Comment(comment))
                 comment = ""
-        elif line.startswith("# "):
+        elif line.startswith("# ") or (line == "#" and comment):
             nc = line[2:].lstrip()
             if nc.startswith("#"):
                 nc = line
-- 
2.43.0


From 4179e7bea118bea4cf44d20593afae30ab4e51ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:22 +0000
Subject: [PATCH 008/190] fix: reject .inc identifiers that would not be parsed
 as such

---
 python/moz/l10n/formats/inc/serialize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/inc/serialize.py b/python/moz/l10n/formats/inc/serialize.py
index 2d12c58..f48aaf5 100644
--- a/python/moz/l10n/formats/inc/serialize.py
+++ b/python/moz/l10n/formats/inc/serialize.py
@@ -15,10 +15,13 @@
 from __future__ import annotations
 
 from collections.abc import Iterator
+from re import compile
 from typing import Any
 
 from ...model import Entry, Message, PatternMessage, Resource
 
+re_name = compile(r"\w+")
+
 
 def inc_serialize(
     resource: Resource[str] | Resource[Message],
@@ -58,7 +61,7 @@ def inc_serialize(
         for entry in section.entries:
             if isinstance(entry, Entry):
                 yield from comment(entry.comment, entry.meta, False)
-                if len(entry.id) != 1:
+                if len(entry.id) != 1 or not re_name.fullmatch(entry.id[0]):
                     raise ValueError(f"Unsupported identifier: {entry.id}")
                 msg = entry.value
                 if isinstance(msg, str):
-- 
2.43.0


From 9ccce9a0b3b97b0cca6fa419773e4c93a40cd1ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:23 +0000
Subject: [PATCH 009/190] fix: only consider CR and LF as .inc line breaks

A value with e.g. U+2028 or U+0085 was serialized as is, but could not be parsed.
One with a CR was split into two lines.
---
 python/moz/l10n/formats/inc/parse.py     | 4 ++--
 python/moz/l10n/formats/inc/serialize.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/inc/parse.py b/python/moz/l10n/formats/inc/parse.py
index 500e213..8cf8cb0 100644
--- a/python/moz/l10n/formats/inc/parse.py
+++ b/python/moz/l10n/formats/inc/parse.py
@@ -14,7 +14,7 @@
 
 from __future__ import annotations
 
-from re import compile
+from re import compile, split
 
 from ...model import Comment, Entry, Message, PatternMessage, Resource, Section
 from .. import Format
@@ -34,7 +34,7 @@ def inc_parse(source: str | bytes) -> Resource[Message]:
     comment: str = ""
     if not isinstance(source, str):
         source = str(source, "utf8")
-    for line in source.splitlines():
+    for line in split(r"\r\n?|\n", source):
         if not line or line.isspace():
             if comment:
                 entries.append(Comment(comment))
diff --git a/python/moz/l10n/formats/inc/serialize.py b/python/moz/l10n/formats/inc/serialize.py
index f48aaf5..207ccb1 100644
--- a/python/moz/l10n/formats/inc/serialize.py
+++ b/python/moz/l10n/formats/inc/serialize.py
@@ -15,7 +15,7 @@
 from __future__ import annotations
 
 from collections.abc import Iterator
-from re import compile
+from re import compile, sub
 from typing import Any
 
 from ...model import Entry, Message, PatternMessage, Resource
@@ -72,7 +72,7 @@ def inc_serialize(
                     value = "".join(msg.pattern)  # type: ignore[arg-type]
                 else:
                     raise ValueError(f"Unsupported message for {entry.id[0]}: {msg}")
-                value = value.replace("\n", " ")
+                value = sub(r"\r\n?|\n", " ", value)
                 yield f"#define {entry.id[0]} {value}\n"
                 yield "\n"
             else:
-- 
2.43.0


From afc4150028442269940e509868c5e4be809e309e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:01 +0000
Subject: [PATCH 010/190] fix: do not parse .ini options with names starting
 with rem as comments

---
 python/moz/l10n/formats/ini/parse.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/moz/l10n/formats/ini/parse.py b/python/moz/l10n/formats/ini/parse.py
index 7a96ac8..bbda2d0 100644
--- a/python/moz/l10n/formats/ini/parse.py
+++ b/python/moz/l10n/formats/ini/parse.py
@@ -16,6 +16,7 @@ from __future__ import annotations
 
 from collections.abc import Generator
 from io import StringIO
+from re import compile
 from typing import TextIO
 
 from iniparse import ini  # type: ignore[import-untyped]
@@ -23,6 +24,12 @@ from iniparse import ini  # type: ignore[import-untyped]
 from ...model import Comment, Entry, Message, PatternMessage, Resource, Section
 from .. import Format
 
+# By default, iniparse considers any line starting with "rem" as a comment,
+# including those of options such as "remove=Remove".
+ini.CommentLine.regex = compile(
+    r"^(?P<csep>[;#]|[rR][eE][mM](?=\s|$))(?P<comment>.*)$"
+)
+
 
 def ini_parse(source: TextIO | str | bytes) -> Resource[Message]:
     """
-- 
2.43.0


From 6d3fa7c2ca7f94db5f05e7ebbc4c085167be965a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:19 +0000
Subject: [PATCH 011/190] fix: reject .ini identifiers that are empty or start
 a comment

---
 python/moz/l10n/formats/ini/serialize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/ini/serialize.py b/python/moz/l10n/formats/ini/serialize.py
index 6be53ae..58f5141 100644
--- a/python/moz/l10n/formats/ini/serialize.py
+++ b/python/moz/l10n/formats/ini/serialize.py
@@ -80,6 +80,8 @@ def ini_serialize(
                     value = "".join(msg.pattern)  # type: ignore[arg-type]
                 else:
                     raise ValueError(f"Unsupported message for {entry.id}: {msg}")
+                if search(r"^(?:[#;]|(?i:rem)\s)", ".".join(entry.id)):
+                    raise ValueError(f"Identifier starts a comment: {entry.id}")
                 lines = value.rstrip().splitlines()
                 yield (
                     f"{id_str(entry.id)}={lines.pop(0) if lines else ''}".rstrip()
@@ -95,6 +97,6 @@ def ini_serialize(
 
 def id_str(id: tuple[str, ...]) -> str:
     name = ".".join(id)
-    if search(r"^\s|[\n:=[\]]|\s$", name):
+    if not name or search(r"^\s|[\n:=[\]]|\s$", name):
         raise ValueError(f"Unsupported character in identifier: {id}")
     return name
-- 
2.43.0


From f12919fc55c76c3f158c3de3f8b637138c91b16f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:20 +0000
Subject: [PATCH 012/190] fix: only consider CR and LF as line breaks in .ini
 values

Other line separators such as U+2028 were replaced by line feeds.
---
 python/moz/l10n/formats/ini/serialize.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/ini/serialize.py b/python/moz/l10n/formats/ini/serialize.py
index 58f5141..146f258 100644
--- a/python/moz/l10n/formats/ini/serialize.py
+++ b/python/moz/l10n/formats/ini/serialize.py
@@ -15,7 +15,7 @@
 from __future__ import annotations
 
 from collections.abc import Iterator
-from re import search
+from re import search, split
 from typing import Any
 
 from ...model import Entry, Message, PatternMessage, Resource
@@ -82,9 +82,9 @@ def ini_serialize(
                     raise ValueError(f"Unsupported message for {entry.id}: {msg}")
                 if search(r"^(?:[#;]|(?i:rem)\s)", ".".join(entry.id)):
                     raise ValueError(f"Identifier starts a comment: {entry.id}")
-                lines = value.rstrip().splitlines()
+                lines = split(r"\r\n?|\n", value.rstrip())
                 yield (
-                    f"{id_str(entry.id)}={lines.pop(0) if lines else ''}".rstrip()
+                    f"{id_str(entry.id)}={lines.pop(0)}".rstrip()
                     + "\n"
                 )
                 for line in lines:
-- 
2.43.0


From 485a396988201eca59b0704fa4d87954cf3cd075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:26 +0000
Subject: [PATCH 013/190] fix: reject conflicting message identifiers in
 plain_json_serialize

A message at the path of a parent of other messages silently replaced all of them,
or if preceding them, resulted in a TypeError.
---
 python/moz/l10n/formats/plain_json/serialize.py | 13 +++++++++++--
 1 file changed, 11 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/plain_json/serialize.py b/python/moz/l10n/formats/plain_json/serialize.py
index b72680f..0dd25de 100644
--- a/python/moz/l10n/formats/plain_json/serialize.py
+++ b/python/moz/l10n/formats/plain_json/serialize.py
@@ -45,13 +45,18 @@ def plain_json_serialize(
     def ddict() -> dict[str, Any]:
         return defaultdict(ddict)
 
+    def child(parent: dict[str, Any], part: str, path: tuple[str, ...]) -> Any:
+        if not isinstance(parent[part], dict):
+            raise ValueError(f"Identifier conflict with message at {path}")
+        return parent[part]
+
     check(resource.comment, resource.meta)
     root = ddict()
     for section in resource.sections:
         check(section.comment, section.meta)
         section_parent = root
         for part in section.id:
-            section_parent = section_parent[part]
+            section_parent = child(section_parent, part, section.id)
         for entry in section.entries:
             if isinstance(entry, Entry):
                 check(entry.comment, entry.meta)
@@ -70,7 +75,11 @@ def plain_json_serialize(
                     )
                 parent = section_parent
                 for part in entry.id[:-1]:
-                    parent = parent[part]
+                    parent = child(parent, part, section.id + entry.id)
+                if isinstance(parent.get(entry.id[-1]), dict):
+                    raise ValueError(
+                        f"Identifier conflict with messages under {section.id + entry.id}"
+                    )
                 parent[entry.id[-1]] = value
             else:
                 check(entry.comment, None)
-- 
2.43.0


From d05dba845c5bba02c2840acd2234157422811926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:58:19 +0000
Subject: [PATCH 014/190] fix: do not modify the placeholders passed to
 webext_parse_message

Parsing another message with the same placeholders object
left out the declarations from its result.
---
 python/moz/l10n/formats/webext/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/webext/parse.py b/python/moz/l10n/formats/webext/parse.py
index 39ffc8b..dc5372c 100644
--- a/python/moz/l10n/formats/webext/parse.py
+++ b/python/moz/l10n/formats/webext/parse.py
@@ -66,7 +66,7 @@ def webext_parse_message(
     with an attribute used for an example, if it's available.
     """
     ph_data = (
-        {k.lower(): v for k, v in placeholders.items()}
+        {k.lower(): {**v} for k, v in placeholders.items()}
         if placeholders is not None
         else {}
     )
-- 
2.43.0


From 1893e3466a26267f132e04718c17a6bce61b7d1c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:00:06 +0000
Subject: [PATCH 015/190] fix: reject message parts that
 webext_serialize_message cannot keep apart

A literal $ before a placeholder, or an indexed placeholder such as $1 that is
followed by text with a $ or by another placeholder, were serialized as
something which would be parsed as a different message, or not at all.
---
 python/moz/l10n/formats/webext/serialize.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index 53fb6a0..271f118 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -27,6 +27,7 @@ from ...model import (
     Resource,
     VariableRef,
 )
+from .parse import placeholder
 
 
 def webext_serialize(
@@ -102,7 +103,9 @@ def webext_serialize_message(
         raise ValueError(f"Unsupported message: {msg}")
     msgstr = ""
     placeholders: dict[str, Any] = {}
+    spans: list[tuple[int, int]] = []
     for part in msg.pattern:
+        start = len(msgstr)
         if isinstance(part, str):
             msgstr += sub(r"\$+", r"$\g<0>", part)
         elif (
@@ -151,6 +154,11 @@ def webext_serialize_message(
             else:
                 arg_name = source if isinstance(source, str) else ph_name
                 msgstr += arg_name if arg_name.startswith("$") else f"${arg_name}"
+            if placeholder.fullmatch(msgstr, start):
+                spans.append((start, len(msgstr)))
         else:
             raise ValueError(f"Unsupported message part: {part}")
+    found = [m.span() for m in placeholder.finditer(msgstr) if not m[3]]
+    if found != spans:
+        raise ValueError(f"Unsupported literal $ next to placeholder: {msgstr}")
     return msgstr, dict(sorted(placeholders.items()))
-- 
2.43.0


From 0a78bfe80ddc86f149ba65b597db2494054e529f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:47 +0000
Subject: [PATCH 016/190] fix: reject gettext identifiers that would not be
 serialized

---
 python/moz/l10n/formats/gettext/serialize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index ca065f2..22284cd 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -60,12 +60,16 @@ def gettext_serialize(
             nplurals = int(pm[1])
 
     for section in resource.sections:
+        if section.id:
+            raise ValueError(f"Section identifiers are not supported: {section.id}")
         if section.comment:
             raise ValueError("Section comments are not supported")
         if section.meta:
             raise ValueError("Section metadata is not supported")
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if len(entry.id) not in (1, 2):
+                    raise ValueError(f"Unsupported message id: {entry.id}")
                 context = entry.id[1] if len(entry.id) == 2 else None
                 pe = POEntry(msgctxt=context, msgid=entry.id[0])
                 msg = entry.value
-- 
2.43.0


From e202acde4e0877b58fe40d3318827055b27eedca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:49 +0000
Subject: [PATCH 017/190] fix: only consider the last : of a gettext reference
 as a line separator

---
 python/moz/l10n/formats/gettext/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index 22284cd..7921fdc 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -130,7 +130,7 @@ def gettext_serialize(
                             cs = (m.value).lstrip("\n").rstrip()
                             pe.tcomment = f"{pe.tcomment}\n{cs}" if pe.tcomment else cs
                         elif m.key == "reference":
-                            pos = m.value.split(":", 1)
+                            pos = m.value.rsplit(":", 1)
                             pe.occurrences.append(
                                 (pos[0], pos[1]) if len(pos) == 2 else (m.value, "")
                             )
-- 
2.43.0


From d1cd55f95787ed3156f904d7697cad68e33872c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:08:50 +0000
Subject: [PATCH 018/190] fix: do not drop an empty gettext message context

---
 python/moz/l10n/formats/gettext/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/gettext/parse.py b/python/moz/l10n/formats/gettext/parse.py
index 45b74ef..5ba80b3 100644
--- a/python/moz/l10n/formats/gettext/parse.py
+++ b/python/moz/l10n/formats/gettext/parse.py
@@ -98,7 +98,7 @@ def gettext_parse(
             )
         else:
             value = PatternMessage([pe.msgstr])
-        id = (pe.msgid, pe.msgctxt) if pe.msgctxt else (pe.msgid,)
+        id = (pe.msgid,) if pe.msgctxt is None else (pe.msgid, pe.msgctxt)
         entries.append(Entry(id, value, comment=pe.comment, meta=meta))
     return Resource(Format.gettext, [Section((), entries)], res_comment, res_meta)
 
-- 
2.43.0


From 2fe2d01c15705f3344242d428cd8ed345a8c0c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:09:21 +0000
Subject: [PATCH 019/190] fix: do not drop gettext plural variants beyond
 nplurals, or with unknown keys

---
 python/moz/l10n/formats/gettext/serialize.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index 7921fdc..f27d4fc 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -91,18 +91,29 @@ def gettext_serialize(
                         for keys, pattern in msg.variants.items()
                     )
                 ):
-                    catchall_name = plurals[-1] if plurals else str(nplurals - 1)
+                    names = plurals or [
+                        str(idx) for idx in range(max(nplurals, len(msg.variants)))
+                    ]
                     variants = tuple(
                         (
                             (
                                 key
                                 if isinstance(key := keys[0], str)
-                                else key.value or catchall_name
+                                else key.value
+                                if key.value in names
+                                else names[-1]
                             ),
                             "".join(cast(Sequence[str], pattern)),
                         )
                         for keys, pattern in msg.variants.items()
                     )
+                    used = [key for key, _ in variants]
+                    if len(set(used)) < len(used) or any(
+                        key not in names for key in used
+                    ):
+                        raise ValueError(
+                            f"Plural keys for {entry.id} are not supported: {used}"
+                        )
                     pe.msgstr_plural = {
                         idx: next(
                             (
@@ -112,7 +123,9 @@ def gettext_serialize(
                             ),
                             "",
                         )
-                        for idx in range(nplurals)
+                        for idx in range(
+                            max(nplurals, *(names.index(key) + 1 for key in used))
+                        )
                     }
                 else:
                     raise ValueError(
-- 
2.43.0


From 38ce52321852ab7f56edc9a7b0fd2543bab44e42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:17:47 +0000
Subject: [PATCH 020/190] fix: only serialize Fluent number literals as such

---
 python/moz/l10n/formats/fluent/serialize.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 9312a18..69aa936 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -37,6 +37,7 @@ from ...model import (
     VariableRef,
 )
 
+number_literal = compile(r"-?[0-9]+(\.[0-9]+)?")
 ws_at_start = compile(r"\s+")
 ws_at_end = compile(r"\s+$")
 
@@ -356,13 +357,11 @@ def variant_key(
     key: str | CatchallKey, other: str
 ) -> ftl.NumberLiteral | ftl.Identifier:
     kv = str(key) or other
-    try:
-        float(kv)
+    if number_literal.fullmatch(kv):
         return ftl.NumberLiteral(kv)
-    except Exception:
-        if fullmatch(r"[a-zA-Z][\w-]*", kv):
-            return ftl.Identifier(kv)
-        raise ValueError(f"Unsupported variant key: {kv}")
+    if fullmatch(r"[a-zA-Z][\w-]*", kv):
+        return ftl.Identifier(kv)
+    raise ValueError(f"Unsupported variant key: {kv}")
 
 
 def flat_pattern(
@@ -519,11 +518,9 @@ def value(
     decl: dict[str, Expression], val: str | VariableRef, decl_name: str = ""
 ) -> ftl.InlineExpression:
     if isinstance(val, str):
-        try:
-            float(val)
+        if number_literal.fullmatch(val):
             return ftl.NumberLiteral(val)
-        except Exception:
-            return ftl.StringLiteral(esc_bs.sub(r"\\\1", val).translate(esc_cc))
+        return ftl.StringLiteral(esc_bs.sub(r"\\\1", val).translate(esc_cc))
     elif val.name != decl_name and val.name in decl:
         return expression(decl, decl[val.name], val.name)
     else:
-- 
2.43.0


From d0653921a350015dab986e556d02b75539c6aa2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:14 +0000
Subject: [PATCH 021/190] fix: do not serialize numeric string literals as
 Fluent number literals

---
 python/moz/l10n/formats/fluent/serialize.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 69aa936..71f2d4f 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -438,6 +438,8 @@ def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeab
 def expression(
     decl: dict[str, Expression], expr: Expression, decl_name: str = ""
 ) -> ftl.InlineExpression:
+    if isinstance(expr.arg, str) and not expr.function:
+        return string_literal(expr.arg)
     arg = value(decl, expr.arg, decl_name) if expr.arg is not None else None
     if expr.function:
         return function_ref(decl, arg, expr)
@@ -469,7 +471,7 @@ def function_ref(
             raise ValueError("Argument required for :string")
         if named:
             raise ValueError("Options on :string are not supported")
-        return arg
+        return string_literal(expr.arg) if isinstance(expr.arg, str) else arg
     if function == "datetime":
         if not arg:
             raise ValueError("Argument required for :datetime")
@@ -514,13 +516,17 @@ esc_cc = {n: f"\\u{n:04X}" for r in (range(0, 32), range(127, 160)) for n in r}
 esc_bs = compile(r'([\\"])')
 
 
+def string_literal(val: str) -> ftl.StringLiteral:
+    return ftl.StringLiteral(esc_bs.sub(r"\\\1", val).translate(esc_cc))
+
+
 def value(
     decl: dict[str, Expression], val: str | VariableRef, decl_name: str = ""
 ) -> ftl.InlineExpression:
     if isinstance(val, str):
         if number_literal.fullmatch(val):
             return ftl.NumberLiteral(val)
-        return ftl.StringLiteral(esc_bs.sub(r"\\\1", val).translate(esc_cc))
+        return string_literal(val)
     elif val.name != decl_name and val.name in decl:
         return expression(decl, decl[val.name], val.name)
     else:
-- 
2.43.0


From 52878e97669dff02a094bc6b107de56575b4ef4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:16 +0000
Subject: [PATCH 022/190] fix: keep calls of Fluent functions named STRING and
 MESSAGE

---
 python/moz/l10n/formats/fluent/serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 71f2d4f..ded1639 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -466,7 +466,7 @@ def function_ref(
 
     function = cast(str, expr.function)
     ftl_name = expr.attributes.get("fluent-fn", None)
-    if function == "string":
+    if function == "string" and not ftl_name:
         if not arg:
             raise ValueError("Argument required for :string")
         if named:
@@ -485,7 +485,7 @@ def function_ref(
                 ftl_name = "NUMBER"
             else:
                 return arg
-    if function == "message":
+    if function == "message" and not ftl_name:
         if not isinstance(arg, ftl.Literal):
             raise ValueError(
                 "Message and term references must have a literal message identifier"
-- 
2.43.0


From 0e98f7507f20b4ca00765083984f1bdfcf9a09a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:18 +0000
Subject: [PATCH 023/190] fix: consider adjacent strings together when escaping
 Fluent text

---
 python/moz/l10n/formats/fluent/serialize.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index ded1639..c3f808b 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -368,8 +368,14 @@ def flat_pattern(
     decl: dict[str, Expression], pattern: Pattern, escape_syntax: bool
 ) -> ftl.Pattern:
     elements: list[ftl.TextElement | ftl.Placeable] = []
-    last = len(pattern) - 1
-    for idx, el in enumerate(pattern):
+    parts: Pattern = []
+    for part in pattern:
+        if isinstance(part, str) and parts and isinstance(parts[-1], str):
+            parts[-1] += part
+        elif part != "":
+            parts.append(part)
+    last = len(parts) - 1
+    for idx, el in enumerate(parts):
         if isinstance(el, str):
             if idx == 0:
                 ws = ws_at_start.match(el)
-- 
2.43.0


From f287875bab972a2ac93a50d007ebe0d9dd727e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:56 +0000
Subject: [PATCH 024/190] fix: escape white space that would be lost from
 Fluent text

---
 python/moz/l10n/formats/fluent/serialize.py | 29 ++++++++++++++++-----
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index c3f808b..2e17c6d 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -398,6 +398,15 @@ def flat_pattern(
             elements.append(ftl.Placeable(expression(decl, el)))
         else:
             raise ValueError(f"Conversion to Fluent not supported: {el}")
+    if escape_syntax and elements and isinstance(elements[0], ftl.TextElement):
+        # A pattern with any of these at its start is not put on a new line,
+        # so an indent shared by all its other lines would be lost.
+        start = elements[0].value[:1]
+        if start in ("*", ".", "[") and any(
+            isinstance(el, ftl.TextElement) and "\n " in el.value for el in elements
+        ):
+            elements[0].value = elements[0].value[1:]
+            elements.insert(0, ftl.Placeable(ftl.StringLiteral(start)))
     return ftl.Pattern(elements)
 
 
@@ -420,7 +429,11 @@ def valid_empty_pattern(pattern: ftl.Pattern) -> ftl.Pattern:
     return ftl.Pattern([ftl.Placeable(value({}, empty_text))])
 
 
-not_text = compile(r"[{}]+|\n *[*.[]")
+# Also includes characters that FluentSerializer considers as line separators,
+# and lines with only spaces, which would be parsed as empty lines.
+not_text = compile(
+    r"([{}\r\v\f\x1c-\x1e\x85\u2028\u2029]+)|\n *([*.[])|(?<=\n)( +)(?=\n)"
+)
 
 
 def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeable]:
@@ -429,12 +442,11 @@ def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeab
     elements: list[ftl.TextElement | ftl.Placeable] = []
     idx = 0
     for m in not_text.finditer(source):
-        start = m.start()
-        esc = m[0].lstrip()
-        start += len(m[0]) - len(esc)
+        esc = m.lastindex or 0
+        start = m.start(esc)
         if start > idx:
             elements.append(ftl.TextElement(source[idx:start]))
-        elements.append(ftl.Placeable(ftl.StringLiteral(esc)))
+        elements.append(ftl.Placeable(string_literal(m[esc])))
         idx = m.end()
     if idx < len(source):
         elements.append(ftl.TextElement(source[idx:]))
@@ -518,7 +530,12 @@ def function_ref(
 
 
 # Non-printable ASCII C0 & C1 / Unicode Cc characters
-esc_cc = {n: f"\\u{n:04X}" for r in (range(0, 32), range(127, 160)) for n in r}
+# and line separators
+esc_cc = {
+    n: f"\\u{n:04X}"
+    for r in (range(0, 32), range(127, 160), (0x2028, 0x2029))
+    for n in r
+}
 esc_bs = compile(r'([\\"])')
 
 
-- 
2.43.0


From 14df7cede7b76cac2f7183a05f5c5f3887ac9e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:58 +0000
Subject: [PATCH 025/190] fix: do not rely on the order of variants when
 serializing Fluent select messages

---
 python/moz/l10n/formats/fluent/serialize.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 2e17c6d..16408b2 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -299,9 +299,6 @@ def fluent_astify_message(
     # It gets a bit complicated for SelectMessage. We'll be modifying this list,
     # building select expressions for each selector starting from the last one
     # until this list has only one entry `[[], pattern]`.
-    #
-    # We rely on the variants being in order, so that a variant with N keys
-    # will be next to all other variants for which the first N-1 keys are equal.
     variants = [
         (list(keys), flat_pattern(message.declarations, value, escape_syntax))
         for keys, value in message.variants.items()
@@ -319,8 +316,7 @@ def fluent_astify_message(
             and not selector.arguments.named
         ):
             selector = selector.arguments.positional[0]
-        base_keys = []
-        sel_exp = None
+        sel_exps: dict[tuple[str | CatchallKey, ...], ftl.SelectExpression] = {}
         i = 0
         while i < len(variants):
             keys, pattern = variants[i]
@@ -328,14 +324,18 @@ def fluent_astify_message(
             ftl_variant = ftl.Variant(
                 variant_key(key, other), pattern, isinstance(key, CatchallKey)
             )
-            if sel_exp and keys == base_keys:
+            sel_exp = sel_exps.get(tuple(keys))
+            if sel_exp:
                 sel_exp.variants.append(ftl_variant)
                 variants.pop(i)
             else:
-                base_keys = keys
                 sel_exp = ftl.SelectExpression(selector.clone(), [ftl_variant])
+                sel_exps[tuple(keys)] = sel_exp
                 variants[i] = (keys, ftl.Pattern([ftl.Placeable(sel_exp)]))
                 i += 1
+        for sel_exp in sel_exps.values():
+            if sum(var.default for var in sel_exp.variants) != 1:
+                raise ValueError(f"Missing default variant for selector {selector}")
     if len(variants) != 1:
         raise ValueError(f"Error resolving select message variants (n={len(variants)})")
     return variants[0][1]
-- 
2.43.0


From b7abb1d069777ba6ed784350f61963f1c7f50c6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:28 +0000
Subject: [PATCH 026/190] fix: reject invalid identifiers when serializing
 Fluent

---
 python/moz/l10n/formats/fluent/serialize.py | 30 +++++++++++++--------
 1 file changed, 19 insertions(+), 11 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 16408b2..879380c 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -15,7 +15,7 @@
 from __future__ import annotations
 
 from collections.abc import Callable, Iterator
-from re import compile, fullmatch
+from re import ASCII, compile, fullmatch
 from typing import Any, cast
 
 from fluent.syntax import FluentSerializer
@@ -205,7 +205,7 @@ def fluent_astify_entry(
     )
     attributes = list(
         ftl.Attribute(
-            ftl.Identifier(key),
+            identifier(key),
             fluent_astify_message(val, escape_empty=True, escape_syntax=escape_syntax),
         )
         for key, val in entry.properties.items()
@@ -222,13 +222,13 @@ def fluent_astify_entry(
         c_str = comment_str(entry)
     comment = ftl.Comment(c_str) if c_str else None
     if is_term:
-        return ftl.Term(ftl.Identifier(id[1:]), value, attributes, comment)
+        return ftl.Term(identifier(id[1:]), value, attributes, comment)
     else:
         if pattern_is_empty(value):
             value_ = None if attributes else valid_empty_pattern(value)
         else:
             value_ = value
-        return ftl.Message(ftl.Identifier(id), value_, attributes, comment)
+        return ftl.Message(identifier(id), value_, attributes, comment)
 
 
 def fluent_serialize_message(
@@ -360,10 +360,16 @@ def variant_key(
     if number_literal.fullmatch(kv):
         return ftl.NumberLiteral(kv)
     if fullmatch(r"[a-zA-Z][\w-]*", kv):
-        return ftl.Identifier(kv)
+        return identifier(kv)
     raise ValueError(f"Unsupported variant key: {kv}")
 
 
+def identifier(name: str) -> ftl.Identifier:
+    if not fullmatch(r"[a-zA-Z][\w-]*", name, ASCII):
+        raise ValueError(f"Unsupported Fluent identifier: {name}")
+    return ftl.Identifier(name)
+
+
 def flat_pattern(
     decl: dict[str, Expression], pattern: Pattern, escape_syntax: bool
 ) -> ftl.Pattern:
@@ -475,7 +481,7 @@ def function_ref(
     for name, val in expr.options.items():
         ftl_val = value(decl, val)
         if isinstance(ftl_val, ftl.Literal):
-            named.append(ftl.NamedArgument(ftl.Identifier(name), ftl_val))
+            named.append(ftl.NamedArgument(identifier(name), ftl_val))
         else:
             raise ValueError(
                 f"Fluent option value must be literal for {name}: {ftl_val}"
@@ -513,20 +519,22 @@ def function_ref(
             raise ValueError(f"Invalid message or term identifier: {arg.value}")
         msg_id = match[1]
         msg_attr = match[2]
-        attr = ftl.Identifier(msg_attr) if msg_attr else None
+        attr = identifier(msg_attr) if msg_attr else None
         if msg_id[0] == "-":
             args = ftl.CallArguments(named=named) if named else None
-            return ftl.TermReference(ftl.Identifier(msg_id[1:]), attr, args)
+            return ftl.TermReference(identifier(msg_id[1:]), attr, args)
         elif named:
             raise ValueError("Options on message references are not supported")
         else:
-            return ftl.MessageReference(ftl.Identifier(msg_id), attr)
+            return ftl.MessageReference(identifier(msg_id), attr)
 
     if not ftl_name or not isinstance(ftl_name, str):
         raise ValueError(f"A @fluent-fn attribute is required for :{function}")
 
+    if not fullmatch(r"[A-Z][A-Z0-9_-]*", ftl_name):
+        raise ValueError(f"Unsupported Fluent function name: {ftl_name}")
     args = ftl.CallArguments([arg] if arg else None, named)
-    return ftl.FunctionReference(ftl.Identifier(ftl_name), args)
+    return ftl.FunctionReference(identifier(ftl_name), args)
 
 
 # Non-printable ASCII C0 & C1 / Unicode Cc characters
@@ -553,4 +561,4 @@ def value(
     elif val.name != decl_name and val.name in decl:
         return expression(decl, decl[val.name], val.name)
     else:
-        return ftl.VariableReference(ftl.Identifier(val.name))
+        return ftl.VariableReference(identifier(val.name))
-- 
2.43.0


From 37a795bccae89b7585e2c08e7fb7127f6706c9f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:31 +0000
Subject: [PATCH 027/190] fix: reject section identifiers when serializing
 Fluent

---
 python/moz/l10n/formats/fluent/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 879380c..30a807b 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -141,6 +141,8 @@ def fluent_astify(
     if res_comment:
         body.append(ftl.ResourceComment(res_comment))
     for idx, section in enumerate(resource.sections):
+        if section.id:
+            raise ValueError(f"Section identifiers are not supported: {section.id}")
         section_comment = comment_str(section)
         if (not trim_comments and idx != 0) or section_comment:
             body.append(ftl.GroupComment(section_comment))
-- 
2.43.0


From cef8829903f789371e1336cd6a02b2f42b03edf0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:33 +0000
Subject: [PATCH 028/190] fix: do not drop Fluent resource metadata that
 follows an info value

---
 python/moz/l10n/formats/fluent/serialize.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 30a807b..cb89b28 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -109,9 +109,7 @@ def fluent_astify(
         if trim_comments:
             return ""
         cs = node.comment.rstrip()
-        if not isinstance(node, Comment) and node.meta:
-            if not serialize_metadata:
-                raise ValueError("Metadata requires serialize_metadata parameter")
+        if not isinstance(node, Comment):
             for field in node.meta:
                 if (
                     isinstance(node, Resource)
@@ -119,6 +117,8 @@ def fluent_astify(
                     and field == node.meta[0]
                 ):
                     continue
+                if not serialize_metadata:
+                    raise ValueError("Metadata requires serialize_metadata parameter")
                 meta_str = serialize_metadata(field)
                 if meta_str:
                     ms = meta_str.strip("\n")
@@ -135,9 +135,7 @@ def fluent_astify(
         and res_info.value
     ):
         body.append(ftl.Comment(res_info.value))
-        res_comment = resource.comment.rstrip()
-    else:
-        res_comment = comment_str(resource)
+    res_comment = comment_str(resource)
     if res_comment:
         body.append(ftl.ResourceComment(res_comment))
     for idx, section in enumerate(resource.sections):
-- 
2.43.0


From f8c7509dc8afecc80dd6d70c5184c118d004508c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:56 +0000
Subject: [PATCH 029/190] fix: linepos.end of the last Fluent entry if its line
 is not terminated

---
 python/moz/l10n/formats/fluent/parse.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 1bcecb2..193898b 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -416,13 +416,12 @@ def literal_value(arg: ftl.NumberLiteral | ftl.StringLiteral) -> str:
 
 class LinePosMapper:
     def __init__(self, src: str) -> None:
-        self._len = len(src)
         self._newlines = [m.start() for m in finditer("\n", src)]
+        if src and src[-1] != "\n":
+            # Treat the end of the string as a newline.
+            self._newlines.append(len(src))
 
     def _get_line(self, char_idx: int) -> int:
-        # Treat the end of the string as a newline.
-        if not self._newlines and char_idx >= self._len:
-            return 2
         return next(
             (idx + 1 for idx, nl in enumerate(self._newlines) if nl > char_idx),
             len(self._newlines) + 1,
-- 
2.43.0


From ac44e08ed4f910f729f015d8b81a009901145904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:07 +0000
Subject: [PATCH 030/190] fix: flatten Fluent selectors that are used more than
 once with different keys

---
 python/moz/l10n/formats/fluent/parse.py | 33 +++++++++++++++++++------
 1 file changed, 25 insertions(+), 8 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 193898b..22d4a5f 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -217,9 +217,10 @@ def fluent_entry(
 def message(ftl_pattern: ftl.Pattern) -> Message:
     sel_data = find_selectors(ftl_pattern, [])
     sel_expressions = [sd[0] for sd in sel_data]
-    filter: list[Key | None] = [None] * len(sel_expressions)
+    filter: list[dict[Key, bool]] = [{}] * len(sel_expressions)
     msg_variants: dict[tuple[Key, ...], Pattern]
     var_names: set[str] = set()
+    key_lists: list[list[Key]] = []
     if sel_expressions:
         key_lists = [list(dict.fromkeys(sd[2])) for sd in sel_data]
         for keys in key_lists:
@@ -228,6 +229,12 @@ def message(ftl_pattern: ftl.Pattern) -> Message:
     else:
         msg_variants = {(): []}
 
+    # For each variant and selector, True if one of its keys is matched explicitly,
+    # False if it's only matched as a default, and None if it's not used at all.
+    explicit: dict[tuple[Key, ...], list[bool | None]] = {
+        keys: [None] * len(keys) for keys in msg_variants
+    }
+
     def add_pattern(ftl_pattern: ftl.Pattern) -> None:
         el: (
             ftl.TextElement
@@ -242,15 +249,25 @@ def message(ftl_pattern: ftl.Pattern) -> Message:
                 msg_sel = next(sd[0] for sd in sel_data if el.selector in sd[1])
                 idx = sel_expressions.index(msg_sel)
                 prev_filt = filter[idx]
-                for v in el.variants:
-                    filter[idx] = variant_key(v)
-                    add_pattern(v.value)
+                el_keys = [variant_key(v) for v in el.variants]
+                for v, v_key in zip(el.variants, el_keys):
+                    # The default also matches keys that are only used by
+                    # other select expressions with the same selector.
+                    filter[idx] = {
+                        key: key == v_key or prev_filt.get(key, False)
+                        for key in prev_filt or key_lists[idx]
+                        if key == v_key or (v.default and key not in el_keys)
+                    }
+                    if filter[idx]:
+                        add_pattern(v.value)
                 filter[idx] = prev_filt
             else:
                 for keys, msg_pattern in msg_variants.items():
-                    if all(
-                        (filt is None or key == filt) for key, filt in zip(keys, filter)
-                    ):
+                    if all(not filt or key in filt for key, filt in zip(keys, filter)):
+                        for i, filt in enumerate(filter):
+                            if filt:
+                                prev = explicit[keys][i]
+                                explicit[keys][i] = prev or filt[keys[i]]
                         if isinstance(el, ftl.TextElement):
                             if msg_pattern and isinstance(msg_pattern[-1], str):
                                 msg_pattern[-1] += el.value
@@ -282,7 +299,7 @@ def message(ftl_pattern: ftl.Pattern) -> Message:
         variants = {
             tuple(map(message_key, keys)): msg_pattern
             for keys, msg_pattern in msg_variants.items()
-            if msg_pattern
+            if msg_pattern and False not in explicit[keys]
         }
         return SelectMessage(declarations, tuple(selectors), variants)
     else:
-- 
2.43.0


From 03ec39bab5982f49c6a5c69a1e4ec10203fc20ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:09 +0000
Subject: [PATCH 031/190] fix: use unique declarations for Fluent selectors on
 the same variable

---
 python/moz/l10n/formats/fluent/parse.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 22d4a5f..0f9d3e2 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -282,11 +282,18 @@ def message(ftl_pattern: ftl.Pattern) -> Message:
     add_pattern(ftl_pattern)
 
     if sel_expressions:
-        declarations = {}
+        declarations: dict[str, Expression] = {}
         selectors = []
+        for expr in sel_expressions:
+            if isinstance(expr.arg, VariableRef):
+                var_names.add(expr.arg.name)
         for expr in sel_expressions:
             name = expr.arg.name if isinstance(expr.arg, VariableRef) else None
-            if name is None or expr.attributes.get("fluent-fn") is not None:
+            if (
+                name is None
+                or name in declarations
+                or expr.attributes.get("fluent-fn") is not None
+            ):
                 stem = name or "sel"
                 name = None
                 i = 0
-- 
2.43.0


From 260d2b2c056139813fed3ddeeff12e9773e63018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:21:34 +0000
Subject: [PATCH 032/190] fix: do not lose an indent shared by all the lines of
 a Fluent message

---
 python/moz/l10n/formats/fluent/serialize.py | 17 +++++++++++++++++
 1 file changed, 17 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index cb89b28..86472f3 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -38,6 +38,7 @@ from ...model import (
 )
 
 number_literal = compile(r"-?[0-9]+(\.[0-9]+)?")
+line_indent = compile(r"\n( *)(?=[^ \n]|\Z)")
 ws_at_start = compile(r"\s+")
 ws_at_end = compile(r"\s+$")
 
@@ -257,6 +258,22 @@ def fluent_serialize_message(
             message, escape_empty=escape_empty, escape_syntax=escape_syntax
         )
     )
+    if escape_syntax and not isinstance(message, ftl.Pattern):
+        # An indent shared by all lines after the first one would be lost
+        indents = [
+            (idx, m.start(1), m.end(1))
+            for idx, el in enumerate(pattern.elements)
+            if isinstance(el, ftl.TextElement)
+            for m in line_indent.finditer(el.value)
+        ]
+        if indents and all(start < end for _, start, end in indents):
+            idx, start, end = indents[0]
+            val = cast(ftl.TextElement, pattern.elements[idx]).value
+            pattern.elements[idx : idx + 1] = [
+                ftl.TextElement(val[:start]),
+                ftl.Placeable(ftl.StringLiteral(val[start:end])),
+                ftl.TextElement(val[end:]),
+            ]
     return "".join(
         el.value if isinstance(el, ftl.TextElement) else serialize_expression(el)
         for el in pattern.elements
-- 
2.43.0


From c99bc53a8e4c40d6cea02f69ef3256631af2eb6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:26:39 +0000
Subject: [PATCH 033/190] fix: linepos.end of Fluent entries with attributes is
 a line number

---
 python/moz/l10n/formats/fluent/parse.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 0f9d3e2..b8e8d9a 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -209,7 +209,7 @@ def fluent_entry(
             entry.properties[attr.id.name] = prop_msg
         if lpm and entry.linepos and attr.span:
             span = attr.value.span or attr.span
-            entry.linepos.end = span.end
+            entry.linepos.end = lpm.get_line(span.end)
 
     return entry
 
@@ -445,15 +445,15 @@ class LinePosMapper:
             # Treat the end of the string as a newline.
             self._newlines.append(len(src))
 
-    def _get_line(self, char_idx: int) -> int:
+    def get_line(self, char_idx: int) -> int:
         return next(
             (idx + 1 for idx, nl in enumerate(self._newlines) if nl > char_idx),
             len(self._newlines) + 1,
         )
 
     def get_linepos(self, start: int, key: int, value: int, end: int) -> LinePos:
-        start_line = self._get_line(start)
-        key_line = start_line if key == start else self._get_line(key)
-        value_line = key_line if value == key else self._get_line(value)
-        end_line = self._get_line(end)
+        start_line = self.get_line(start)
+        key_line = start_line if key == start else self.get_line(key)
+        value_line = key_line if value == key else self.get_line(value)
+        end_line = self.get_line(end)
         return LinePos(start_line, key_line, value_line, end_line)
-- 
2.43.0


From 1d2647e02ba916018589b4e53a00ed6ec73411dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:27:16 +0000
Subject: [PATCH 034/190] fix: escape empty variants of Fluent select
 expressions

---
 python/moz/l10n/formats/fluent/serialize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 86472f3..aa17fd9 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -320,6 +320,10 @@ def fluent_astify_message(
         (list(keys), flat_pattern(message.declarations, value, escape_syntax))
         for keys, value in message.variants.items()
     ]
+    variants = [
+        (keys, valid_empty_pattern(pattern) if pattern_is_empty(pattern) else pattern)
+        for keys, pattern in variants
+    ]
 
     other = fallback_name(message)
     keys0 = variants[0][0]
-- 
2.43.0


From e521e515aff64858e0771106819d8154663c25da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:28:41 +0000
Subject: [PATCH 035/190] fix: reject term attributes as Fluent placeables, and
 other message selectors

---
 python/moz/l10n/formats/fluent/serialize.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index aa17fd9..ca2c00f 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -337,6 +337,10 @@ def fluent_astify_message(
             and not selector.arguments.named
         ):
             selector = selector.arguments.positional[0]
+        if isinstance(selector, ftl.MessageReference) or (
+            isinstance(selector, ftl.TermReference) and not selector.attribute
+        ):
+            raise ValueError(f"Unsupported Fluent selector: {selector}")
         sel_exps: dict[tuple[str | CatchallKey, ...], ftl.SelectExpression] = {}
         i = 0
         while i < len(variants):
@@ -422,7 +426,10 @@ def flat_pattern(
                     continue
             elements += text(el, escape_syntax)
         elif isinstance(el, Expression):
-            elements.append(ftl.Placeable(expression(decl, el)))
+            exp = expression(decl, el)
+            if isinstance(exp, ftl.TermReference) and exp.attribute:
+                raise ValueError(f"Term attributes are not supported here: {el}")
+            elements.append(ftl.Placeable(exp))
         else:
             raise ValueError(f"Conversion to Fluent not supported: {el}")
     if escape_syntax and elements and isinstance(elements[0], ftl.TextElement):
-- 
2.43.0


From b63b3e8c32368eca906819cb35ba6a2ec01c1b73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:30:15 +0000
Subject: [PATCH 036/190] fix: include default variants for all Fluent
 selectors

---
 python/moz/l10n/formats/fluent/parse.py | 20 +++++++++++++++++++-
 1 file changed, 19 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index b8e8d9a..4d6c97b 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -303,10 +303,28 @@ def message(ftl_pattern: ftl.Pattern) -> Message:
             declarations[name] = expr
             selectors.append(VariableRef(name))
             var_names.add(name)
+        used = {
+            keys
+            for keys, msg_pattern in msg_variants.items()
+            if msg_pattern and False not in explicit[keys]
+        }
+        # Include a default variant for each selector, even if it has the same value
+        # as the corresponding default variant of an earlier selector.
+        defaults = tuple(next(k for k in keys if k[2]) for keys in key_lists)
+        prefixes = {
+            tuple(map(message_key, keys[: i + 1]))
+            for keys in used
+            for i in range(len(keys))
+        }
+        for keys in list(used):
+            for i in range(len(keys)):
+                fallback = keys[:i] + defaults[i:]
+                if tuple(map(message_key, fallback[: i + 1])) not in prefixes:
+                    used.add(fallback)
         variants = {
             tuple(map(message_key, keys)): msg_pattern
             for keys, msg_pattern in msg_variants.items()
-            if msg_pattern and False not in explicit[keys]
+            if keys in used
         }
         return SelectMessage(declarations, tuple(selectors), variants)
     else:
-- 
2.43.0


From 7d70ef91c75d94b78d885e6dfe1e800f7f087488 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:26 +0000
Subject: [PATCH 037/190] fix: include all variants that Fluent selectors need

---
 python/moz/l10n/formats/fluent/parse.py | 48 +++++++++++++++----------
 1 file changed, 30 insertions(+), 18 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 4d6c97b..ff467f5 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -303,27 +303,39 @@ def message(ftl_pattern: ftl.Pattern) -> Message:
             declarations[name] = expr
             selectors.append(VariableRef(name))
             var_names.add(name)
-        used = {
-            keys
-            for keys, msg_pattern in msg_variants.items()
-            if msg_pattern and False not in explicit[keys]
-        }
-        # Include a default variant for each selector, even if it has the same value
-        # as the corresponding default variant of an earlier selector.
+        patterns: dict[tuple[Key, ...], Pattern] = {}
+        used: set[tuple[Key, ...]] = set()
         defaults = tuple(next(k for k in keys if k[2]) for keys in key_lists)
-        prefixes = {
-            tuple(map(message_key, keys[: i + 1]))
-            for keys in used
-            for i in range(len(keys))
-        }
-        for keys in list(used):
-            for i in range(len(keys)):
-                fallback = keys[:i] + defaults[i:]
-                if tuple(map(message_key, fallback[: i + 1])) not in prefixes:
-                    used.add(fallback)
+        for keys, msg_pattern in msg_variants.items():
+            if msg_pattern:
+                norm = tuple(d if k[2] else k for k, d in zip(keys, defaults))
+                patterns[norm] = msg_pattern
+                if False not in explicit[keys]:
+                    used.add(norm)
+        count = -1
+        while count != len(used):
+            count = len(used)
+            # Each selector needs to have a default variant,
+            # even if it has the same value as that of an earlier selector.
+            prefixes = {keys[:i] for keys in used for i in range(1, len(keys) + 1)}
+            for keys in list(used):
+                for i in range(len(keys)):
+                    fallback = keys[:i] + defaults[i:]
+                    if fallback[: i + 1] not in prefixes:
+                        used.add(fallback)
+            # The best match among the other variants may not have the right value.
+            # The order here is from the most generic to the most specific keys.
+            for keys in reversed(list(patterns)):
+                if keys not in used:
+                    matches = product(
+                        *(dict.fromkeys(kd) for kd in zip(keys, defaults))
+                    )
+                    best = next((match for match in matches if match in used), None)
+                    if best is None or patterns[best] != patterns[keys]:
+                        used.add(keys)
         variants = {
             tuple(map(message_key, keys)): msg_pattern
-            for keys, msg_pattern in msg_variants.items()
+            for keys, msg_pattern in patterns.items()
             if keys in used
         }
         return SelectMessage(declarations, tuple(selectors), variants)
-- 
2.43.0


From e4e5683319c5e86af7dcc1c041aa8238675e5861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:09 +0000
Subject: [PATCH 038/190] fix: serialize Android strings as XML rather than
 HTML

---
 python/moz/l10n/formats/android/serialize.py | 30 +++++++++++---------
 1 file changed, 17 insertions(+), 13 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 322ab9a..f1fbcac 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -159,7 +159,7 @@ def android_serialize(
         for entity in entities:
             yield f"  {entity}\n"
         yield "]>\n"
-    yield etree.tostring(root, encoding="unicode", method="html")
+    yield xml_string(root)
     yield "\n"
 
 
@@ -174,17 +174,20 @@ def android_serialize_message(msg: Message | str, *, allow_cdata: bool = False)
 
     target = etree.Element("string")
     set_pattern_message(target, msg, allow_cdata=allow_cdata)
-    string = etree.tostring(
-        target, encoding="unicode", method="html", pretty_print=True
-    ).strip()
-    if string == "<string/>":
-        return ""
+    string = xml_string(target)
     if not string.startswith("<string>"):
         raise ValueError(f"Invalid serialization: {string}")
     # trim <string>...</string> wrapper
     return string[8:-9]
 
 
+def xml_string(root: etree._Element) -> str:
+    for el in root.iter("string", "item"):
+        if el.text is None and len(el) == 0:
+            el.text = ""  # Do not use a self-closing tag
+    return etree.tostring(root, encoding="unicode")
+
+
 def get_attrib(name: str, meta: list[Metadata]) -> dict[str, str]:
     res = {"name": name}
     for m in meta:
@@ -287,10 +290,12 @@ def set_pattern_message(
     if isinstance(msg, str):
         el.text = escape_part(msg)
         escape_pattern(el)
-        if allow_cdata and tag_like.search(el.text) is not None:
-            # The manual wrapper is a workaround for
-            # https://bugs.launchpad.net/lxml/+bug/2111509
-            el.text = etree.CDATA(f"<![CDATA[{el.text}]]>")
+        if (
+            allow_cdata
+            and "]]>" not in el.text
+            and tag_like.search(el.text) is not None
+        ):
+            el.text = etree.CDATA(el.text)
     elif isinstance(msg, PatternMessage) and not msg.declarations:
         set_pattern(el, msg.pattern, allow_cdata=allow_cdata)
     else:
@@ -390,11 +395,10 @@ def set_pattern(
         allow_cdata
         and len(el) == 0
         and el.text
+        and "]]>" not in el.text
         and tag_like.search(el.text) is not None
     ):
-        # The manual wrapper is a workaround for
-        # https://bugs.launchpad.net/lxml/+bug/2111509
-        el.text = etree.CDATA(f"<![CDATA[{el.text}]]>")
+        el.text = etree.CDATA(el.text)
 
 
 def entity_name(part: Expression) -> str | None:
-- 
2.43.0


From ce0bb0d3066c97e25294dbde04a5ec0949dac579 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:11 +0000
Subject: [PATCH 039/190] fix: escape all control characters in Android strings

---
 python/moz/l10n/formats/android/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index f1fbcac..1777b15 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -417,7 +417,7 @@ android_escape = str.maketrans(
 )
 
 # Control codes are not valid in XML, and nonstandard whitespace needs escaping
-control_chars = compile(r"[\x00-\x19\x7F-\x9F]|[^\S ]|(?<= ) ")
+control_chars = compile(r"[\x00-\x1F\x7F-\x9F]|[^\S ]|(?<= ) ")
 
 
 def escape_char(ch: str) -> str:
-- 
2.43.0


From fbd355aec38d6930c5535ada5112506ec2db10bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:37 +0000
Subject: [PATCH 040/190] fix: Android escapes in tags, in protected literals,
 and of surrogate pairs

---
 python/moz/l10n/formats/android/parse.py | 36 ++++++++++++++++--------
 1 file changed, 25 insertions(+), 11 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index b941d2a..912bd37 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 
 import logging
 from collections.abc import Callable, Iterable, Iterator
-from re import ASCII, compile, match
+from re import ASCII, Match, compile, match
 from typing import Literal, cast
 
 from lxml import etree
@@ -377,7 +377,7 @@ def flatten(el: etree._Element) -> Iterator[str | Expression | Markup]:
                                 arg = VariableRef(get_var_name(gc))
                                 attr["source"] = gc
                             else:
-                                arg = gc
+                                arg = unescape(gc)
                             if options:
                                 yield Expression(arg, name, options, attributes=attr)
                             else:
@@ -431,8 +431,26 @@ def parse_quotes(
             yield part
 
 
+unicode_re = (
+    r"\\u[dD][89abAB][0-9a-fA-F]{2}\\u[dD][c-fC-F][0-9a-fA-F]{2}|\\u[0-9a-fA-F]{4}"
+)
+escape_re = compile(f"({unicode_re})|" r"\\(.)")
+
+
+def unescape(src: str) -> str:
+    def unescape_match(m: Match[str]) -> str:
+        if m[1]:
+            # Unicode escape, or a surrogate pair of them
+            utf16 = bytes.fromhex(m[1].replace("\\u", ""))
+            return utf16.decode("utf-16-be", "surrogatepass")
+        c: str = m[2]
+        return "\n" if c == "n" else "\t" if c == "t" else c
+
+    return escape_re.sub(unescape_match, src)
+
+
 inline_re = compile(
-    r"\\u([0-9a-fA-F]{4})|"
+    f"({unicode_re})|"
     r"\\(.)|"
     r"(<[^%>]+>)|"
     r"(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?.))"
@@ -465,17 +483,13 @@ def parse_inline(
                         acc += part[pos:start]
                 if at_br:
                     at_br = False
-                if m[1]:
-                    # Unicode escape
-                    acc += chr(int(m[1], base=16))
-                elif m[2]:
-                    # Escaped character
-                    c = m[2]
-                    acc += "\n" if c == "n" else "\t" if c == "t" else c
+                if m[1] or m[2]:
+                    # Escaped characters
+                    acc += unescape(m[0])
                 elif m[3]:
                     # Escaped HTML element, e.g. &lt;b>
                     # HTML elements containing internal % formatting are not wrapped as literals
-                    tag = m[3]
+                    tag = unescape(m[3])
                     if acc.endswith(" ") and block_tag_re.match(tag):
                         yield acc[:-1] + "\n"
                         acc = ""
-- 
2.43.0


From b2e80b271f60a3e07b90c02d9b4b46b59e1f7d45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:39 +0000
Subject: [PATCH 041/190] fix: keep Android %< references to a placeholder with
 no index

---
 python/moz/l10n/formats/android/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 912bd37..785c318 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -531,8 +531,8 @@ def parse_inline(
                             if prev_var_name:
                                 name = prev_var_name
                                 prev_idx_m = var_idx_re.search(name)
-                                prev_idx = prev_idx_m[0] + "$" if prev_idx_m else ""
-                                source = f"%{prev_idx}{source[2:]}"
+                                if prev_idx_m:
+                                    source = f"%{prev_idx_m[0]}${source[2:]}"
                             else:
                                 raise ValueError(f"Invalid {source} placeholder")
                         else:
-- 
2.43.0


From 2f09781f04c3ccabec86b94d27b059bb6f91d071 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:41 +0000
Subject: [PATCH 042/190] fix: Android double quotes after an escaped backslash

---
 python/moz/l10n/formats/android/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 785c318..6b612b1 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -394,7 +394,7 @@ def flatten(el: etree._Element) -> Iterator[str | Expression | Markup]:
             yield child.tail
 
 
-double_quote = compile(r'(?<!\\)"')
+double_quote = compile(r'(?<!\\)(?:\\\\)*(")')
 tag_like = compile(r"<.+>")
 
 
@@ -414,7 +414,7 @@ def parse_quotes(
                         # Let's presume that double quotes near html-ish contents are intentional.
                         break
                     # All unescaped double quotes are consumed, even unpaired ones.
-                    prev = part[pos : m.start()]
+                    prev = part[pos : m.start(1)]
                     if prev:
                         yield prev if quoted else spaces.sub(" ", prev)
                     quoted = not quoted
-- 
2.43.0


From ac6eac107631f91b5a78d8ec4f5c4c20bfeb6e7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:43 +0000
Subject: [PATCH 043/190] fix: normalize the space after a break tag also at
 the end of an Android string

---
 python/moz/l10n/formats/android/parse.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 6b612b1..35ebaa1 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -542,6 +542,11 @@ def parse_inline(
                             VariableRef(name), func, attributes={"source": source}
                         )
                 pos = m.end()
+            if at_br and pos < len(part):
+                at_br = False
+                if part[pos] == " ":
+                    acc += "\n"
+                    pos += 1
             acc += part[pos:]
     if acc:
         yield acc
-- 
2.43.0


From 83cd9834b7c2d3b6651051ceeccd56a18faa55d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:39:45 +0000
Subject: [PATCH 044/190] fix: reject unclosed Android markup

---
 python/moz/l10n/formats/android/serialize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 1777b15..c12b4f4 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -385,11 +385,13 @@ def set_pattern(
             elif part.kind == "open":
                 parent = etree.SubElement(parent, name, attrib=attrib)
                 node = None
-            elif parent != el and name == parent.tag:  # kind == 'close'
+            elif parent is not el and name == parent.tag:  # kind == 'close'
                 node = parent
                 parent = cast(etree._Element, parent.getparent())
             else:
                 raise ValueError(f"Improper element nesting for {part} in {parent}")
+    if parent is not el:
+        raise ValueError(f"Missing close markup for {parent}")
     escape_pattern(el)
     if (
         allow_cdata
-- 
2.43.0


From 58d6187004166bf87f68e561935a0f765ed6a8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:07 +0000
Subject: [PATCH 045/190] fix: comments, order and metadata of Android
 string-arrays

---
 python/moz/l10n/formats/android/serialize.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index c12b4f4..d7df943 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -108,6 +108,7 @@ def android_serialize(
                 if not xml_name.fullmatch(name):
                     raise ValueError(f"Invalid entry name: {name}")
                 if len(entry.id) == 1:
+                    string_array = None
                     attrib = get_attrib(name, entry.meta)
                     if isinstance(entry.value, SelectMessage):
                         # <plurals>
@@ -123,15 +124,21 @@ def android_serialize(
                         set_pattern_message(el, entry.value, allow_cdata=True)
                 else:
                     # <string-array>
+                    attrib = get_attrib(name, entry.meta)
                     if string_array is None or name != string_array.get("name"):
                         string_array = etree.SubElement(
-                            root, "string-array", attrib=get_attrib(name, entry.meta)
+                            root, "string-array", attrib=attrib
+                        )
+                    elif attrib != dict(string_array.attrib):
+                        raise ValueError(
+                            f"String-array items must have the same metadata: {entry.id}"
                         )
                     if entry.comment and not trim_comments:
                         add_comment(string_array, entry.comment, False)
                     set_string_array_item(string_array, entry)
             elif not trim_comments:
-                add_comment(string_array or root, entry.comment, True)
+                add_comment(root, entry.comment, True)
+                string_array = None
 
     etree.cleanup_namespaces(root, {"xliff": xliff_ns})
 
@@ -251,7 +258,7 @@ def set_string_array_item(
         num = int(entry.id[1])
     except ValueError:
         raise ValueError(f"Unsupported entry id: {entry.id}")
-    if num != len(parent):
+    if num != len(parent.findall("item")) or str(num) != entry.id[1]:
         raise ValueError(f"String-array keys must be ordered: {entry.id}")
     if isinstance(entry.value, SelectMessage):
         raise ValueError(f"Unsupported message type for {entry.id}: {entry.value}")
-- 
2.43.0


From f1677eceba0237e04f8a81386638babb0f372826 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:32 +0000
Subject: [PATCH 046/190] fix: keep trailing comments of Android resources,
 plurals and string-arrays

---
 python/moz/l10n/formats/android/parse.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 35ebaa1..545c0ff 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -187,6 +187,9 @@ def android_parse(
                         log.warning(
                             f"Unexpected text in {name} string-array: {item.tail}"
                         )
+                if comment and (cs := comment_str(comment)):
+                    # Comments after the last item
+                    entries.append(Comment(cs))
 
             else:
                 es = etree.tostring(el, encoding="unicode")
@@ -195,6 +198,8 @@ def android_parse(
                 comment.clear()
         if el.tail and not el.tail.isspace():
             log.warning(f"Unexpected text in resource: {el.tail}")
+    if comment and (cs := comment_str(comment)):
+        entries.append(Comment(cs))
     return res
 
 
@@ -311,6 +316,8 @@ def parse_plurals(
             raise ValueError(f"Unsupported {name} plurals child: {cs}")
         if item.tail and not item.tail.isspace():
             log.warning(f"Unexpected text in {name} plurals: {item.tail}")
+    if var_comment:
+        add_comment(var_comment)
     return msg
 
 
-- 
2.43.0


From 85a2ec75724ecb905768bbba7211d47ed210b086 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:35 +0000
Subject: [PATCH 047/190] fix: unescape & and quotes in Android entity values

---
 python/moz/l10n/formats/android/parse.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 545c0ff..56a4ffd 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -271,14 +271,20 @@ entity_ref = compile(f"&({xml_name.pattern});")
 def parse_entity_value(src: str | None) -> Iterator[str | Expression]:
     if src:
         pos = 0
+        acc = ""
         for m in entity_ref.finditer(src):
-            start = m.start()
-            if start > pos:
-                yield src[pos:start]
-            yield Expression(VariableRef(m[1]), "entity")
+            acc += src[pos : m.start()]
+            if m[1] in ("amp", "quot"):
+                acc += "&" if m[1] == "amp" else '"'
+            else:
+                if acc:
+                    yield acc
+                    acc = ""
+                yield Expression(VariableRef(m[1]), "entity")
             pos = m.end()
-        if pos < len(src):
-            yield src[pos:]
+        acc += src[pos:]
+        if acc:
+            yield acc
 
 
 def parse_plurals(
-- 
2.43.0


From 10faa281f814c8dad83553dd9548b284c2855015 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:37 +0000
Subject: [PATCH 048/190] fix: trim only ASCII spaces from Android strings if
 so requested

---
 python/moz/l10n/formats/android/parse.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 56a4ffd..14f68ff 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -339,13 +339,14 @@ def parse_pattern(
     else:
         parts = list(flatten(el))
         if parts:
+            trim = " \t\n\r\f\v" if ascii_spaces else None
             if isinstance(parts[0], str):
-                parts[0] = parts[0].lstrip()
+                parts[0] = parts[0].lstrip(trim)
             if isinstance(parts[-1], str):
                 # Unlike Android, this will trim trailing spaces
                 # at the end of a text segment with an unpaired ".
                 # We're presuming that this never happens intentionally.
-                parts[-1] = parts[-1].rstrip()
+                parts[-1] = parts[-1].rstrip(trim)
         spaced = parse_quotes(parts, ascii_spaces, literal_quotes)
         yield from parse_inline(spaced)
 
-- 
2.43.0


From 1c5f0d0e442d1ad39400365e731b209a1c68ea71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:43:41 +0000
Subject: [PATCH 049/190] fix: use the xliff prefix for protected Android
 markup

---
 python/moz/l10n/formats/android/serialize.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index d7df943..c964bec 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -387,10 +387,13 @@ def set_pattern(
             else:
                 name = part.name
             attrib = cast(dict[str, str], part.options)
+            nsmap = None
+            if name == xliff_g and not parent.nsmap.get("xliff", None):
+                nsmap = {"xliff": xliff_ns}
             if part.kind == "standalone":
-                node = etree.SubElement(parent, name, attrib=attrib)
+                node = etree.SubElement(parent, name, attrib=attrib, nsmap=nsmap)
             elif part.kind == "open":
-                parent = etree.SubElement(parent, name, attrib=attrib)
+                parent = etree.SubElement(parent, name, attrib=attrib, nsmap=nsmap)
                 node = None
             elif parent is not el and name == parent.tag:  # kind == 'close'
                 node = parent
-- 
2.43.0


From a69d4da33d9693f53f2f1b7583276f28327dbff2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:36 +0000
Subject: [PATCH 050/190] fix: do not add white space to XLIFF messages with
 only inline elements

---
 python/moz/l10n/formats/xliff/serialize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 8e08d62..4ec587f 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -175,6 +175,9 @@ def xliff_serialize(
             else:
                 fn = section.id[0]
                 raise ValueError(f"Unsupported message {id} in file: {fn}")
+    for el in root.iter("source", "target", "seg-source"):
+        if not el.text and len(el) > 0:
+            el.text = ""  # Do not add white space to contents
     yield etree.tostring(root, encoding="unicode", pretty_print=True)
 
 
@@ -183,7 +186,7 @@ def xliff_serialize_message(msg: Message) -> str:
         raise ValueError(f"Unsupported message: {msg}")
     target = etree.Element("target")
     set_pattern(target, msg.pattern)
-    str = etree.tostring(target, encoding="unicode", pretty_print=True).strip()
+    str = etree.tostring(target, encoding="unicode")
     if str == "<target/>":
         return ""
     if not str.startswith("<target>"):
-- 
2.43.0


From a3e0f619bcbc2a1be5448cec0dd814585b04b572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:38 +0000
Subject: [PATCH 051/190] fix: keep the white space between inline elements of
 XLIFF sources

---
 python/moz/l10n/formats/xliff/common.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/common.py b/python/moz/l10n/formats/xliff/common.py
index bc3f1b9..401ca80 100644
--- a/python/moz/l10n/formats/xliff/common.py
+++ b/python/moz/l10n/formats/xliff/common.py
@@ -31,16 +31,18 @@ xcode_tool_id = Metadata("header/tool/@tool-id", "com.apple.dt.xcode")
 
 
 def element_as_metadata(
-    el: _Element, base: str, with_attrib: bool
+    el: _Element, base: str, with_attrib: bool, keep_space: bool = False
 ) -> Iterator[Metadata]:
     is_empty = True
     seen: dict[str, int] = defaultdict(int)
+    if base and pretty_name(el, str(el.tag)) in ("source", "target", "seg-source"):
+        keep_space = True
     if with_attrib:
         am = attrib_as_metadata(el, base)
         if am:
             yield from am
             is_empty = False
-    if el.text and not el.text.isspace():
+    if el.text and (keep_space or not el.text.isspace()):
         yield Metadata(base, el.text)
         is_empty = False
     for child in el:
@@ -52,11 +54,11 @@ def element_as_metadata(
             child_base = f"{base}/{name}" if base else name
             if idx > 1:
                 child_base += f"[{idx}]"
-            yield from element_as_metadata(child, child_base, True)
+            yield from element_as_metadata(child, child_base, True, keep_space)
             seen[name] = idx
         else:
             raise ValueError(f"Unsupported metadata element in {base}: {el}")
-        if child.tail and not child.tail.isspace():
+        if child.tail and (keep_space or not child.tail.isspace()):
             yield Metadata(base, child.tail)
         is_empty = False
     if is_empty and with_attrib:
-- 
2.43.0


From 2013a0748ff90169a369b66f416a9a1974bf938b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:40 +0000
Subject: [PATCH 052/190] fix: serialize namespaced XLIFF inline elements and
 their attributes

---
 python/moz/l10n/formats/xliff/common.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/common.py b/python/moz/l10n/formats/xliff/common.py
index 401ca80..eb7ccf7 100644
--- a/python/moz/l10n/formats/xliff/common.py
+++ b/python/moz/l10n/formats/xliff/common.py
@@ -95,7 +95,7 @@ def pretty_name(el: _Element, name: str) -> str:
 
 def clark_name(nsmap: dict[str | None, str], name: str) -> str:
     """See https://lxml.de/tutorial.html#namespaces"""
-    if ":" not in name:
+    if ":" not in name or name.startswith("{"):
         return name
     ns, local = name.split(":", 1)
     if ns in nsmap:
-- 
2.43.0


From f4ff308123e703eeacf04b9b7d02882f34cde110 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:47:42 +0000
Subject: [PATCH 053/190] fix: reject duplicate XLIFF targets and bodies also
 if they have no child elements

---
 python/moz/l10n/formats/xliff/parse.py            | 2 +-
 python/moz/l10n/formats/xliff/parse_trans_unit.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse.py b/python/moz/l10n/formats/xliff/parse.py
index 2c8c8f9..a9ef48c 100644
--- a/python/moz/l10n/formats/xliff/parse.py
+++ b/python/moz/l10n/formats/xliff/parse.py
@@ -113,7 +113,7 @@ def xliff_parse(
                 elif child.tag == f"{ns}header":
                     meta += element_as_metadata(child, "header", True)
                 elif child.tag == f"{ns}body":
-                    if body:
+                    if body is not None:
                         raise ValueError(f"Duplicate <body> in <file>: {file}")
                     body = child
                 else:
diff --git a/python/moz/l10n/formats/xliff/parse_trans_unit.py b/python/moz/l10n/formats/xliff/parse_trans_unit.py
index 0dcfad7..9e36cd8 100644
--- a/python/moz/l10n/formats/xliff/parse_trans_unit.py
+++ b/python/moz/l10n/formats/xliff/parse_trans_unit.py
@@ -53,7 +53,7 @@ def parse_trans_unit(
         else:
             name = pretty_name(el, str(el.tag))
             if name == msg_name:
-                if msg_el:
+                if msg_el is not None:
                     raise ValueError(
                         f"Duplicate <{msg_name}> in <trans-unit> {id}: {unit}"
                     )
-- 
2.43.0


From edba22ad5947f18c6900e1a925d62668f897ca88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:53 +0000
Subject: [PATCH 054/190] fix: In XLIFF, leave out section comments when
 trimming and put those of files before <file>

---
 python/moz/l10n/formats/xliff/serialize.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 4ec587f..c3824ec 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -109,9 +109,12 @@ def xliff_serialize(
                 assign_metadata(parent, section.meta, trim_comments)
             prev[parent_key] = parent
         indent = 2 * len(section.id)
-        if section.comment:
+        if section.comment and not trim_comments:
             comment = etree.Comment(comment_body(section.comment, indent))
-            parent.addprevious(comment)
+            if len(section.id) == 1:
+                cast(etree._Element, parent.getparent()).addprevious(comment)
+            else:
+                parent.addprevious(comment)
 
         indent += 2
         for entry in section.entries:
-- 
2.43.0


From 63a067627933a5feb631d81f3e44ad63b5ecbe88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:55 +0000
Subject: [PATCH 055/190] fix: In XLIFF, assign section metadata only to its
 own file or group element

---
 python/moz/l10n/formats/xliff/serialize.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index c3824ec..16f6e26 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -92,7 +92,7 @@ def xliff_serialize(
     for section in resource.sections:
         if not section.id:
             raise ValueError("Anonymous sections are not supported")
-        parent_key = tuple(section.id)
+        parent_key = section_id = tuple(section.id)
         if parent_key in prev:
             raise ValueError(f"Duplicate section identifier: {parent_key}")
         while parent_key and parent_key not in prev:
@@ -102,11 +102,13 @@ def xliff_serialize(
             parent_key += (id_part,)
             if parent == root:
                 file = etree.SubElement(root, "file", {"original": id_part})
-                assign_metadata(file, section.meta, trim_comments)
+                if parent_key == section_id:
+                    assign_metadata(file, section.meta, trim_comments)
                 parent = etree.SubElement(file, "body")
             else:
                 parent = etree.SubElement(parent, "group", {"id": id_part})
-                assign_metadata(parent, section.meta, trim_comments)
+                if parent_key == section_id:
+                    assign_metadata(parent, section.meta, trim_comments)
             prev[parent_key] = parent
         indent = 2 * len(section.id)
         if section.comment and not trim_comments:
-- 
2.43.0


From 7ab7467b91bf0e5cc540eddee49f70532e193b8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:48:58 +0000
Subject: [PATCH 056/190] fix: Reject unclosed XLIFF markup

---
 python/moz/l10n/formats/xliff/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 16f6e26..63d2ec0 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -496,3 +496,5 @@ def set_pattern(el: etree._Element, pattern: Pattern) -> None:
                 add_text(part_source)
             else:
                 raise ValueError(f"Unsupported expression: {part}")
+    if parent is not el:
+        raise ValueError(f"Missing close markup for {parent}")
-- 
2.43.0


From df970015c181a2a28616c3dc0285ed723b1eba44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:54:04 +0000
Subject: [PATCH 057/190] fix: Keep empty XLIFF sources with source_entries

---
 python/moz/l10n/formats/xliff/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 63d2ec0..14d805b 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -211,7 +211,8 @@ def add_unit(
     assign_metadata(unit, meta, trim_comments)
 
     msg_el = None
-    if pattern:  # only non-empty for <trans-unit>
+    # only non-empty for <trans-unit>, which always needs a <source>
+    if pattern or (source_entries and unit.tag == "trans-unit"):
         if source_entries:
             msg_el = unit.find("source")
             if msg_el is None:
-- 
2.43.0


From b76d14a68439426b29ab3ace8ed99750cec48292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:37 +0000
Subject: [PATCH 058/190] fix: Do not include blank XLIFF notes in comments

---
 python/moz/l10n/formats/xliff/parse_trans_unit.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/parse_trans_unit.py b/python/moz/l10n/formats/xliff/parse_trans_unit.py
index 9e36cd8..347ac59 100644
--- a/python/moz/l10n/formats/xliff/parse_trans_unit.py
+++ b/python/moz/l10n/formats/xliff/parse_trans_unit.py
@@ -64,7 +64,7 @@ def parse_trans_unit(
                 base = f"{name}[{idx}]" if idx > 1 else name
                 meta += element_as_metadata(el, base, True)
                 seen[name] = idx
-                if name == "note" and el.text:
+                if name == "note" and el.text and not el.text.isspace():
                     author = el.attrib.get("from", "")
                     note = el.text.strip()
                     notes.append(f"{author}: {note}" if author else note)
-- 
2.43.0


From 738d2a6d064deb359523d610ed0a18833c09abbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:20 +0000
Subject: [PATCH 059/190] fix: Recognise the q, z, t and j length modifiers in
 Xcode placeholders

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 6038374..7a1826d 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -66,7 +66,7 @@ plural_categories = ("zero", "one", "two", "few", "many", "other")
 variant_key = compile(r"%#@([a-zA-Z_]\w*)@")
 # https://developer.apple.com/library/archive/documentation/Cocoa/Conceptual/Strings/Articles/formatSpecifiers.html
 printf = compile(
-    r"%([1-9]\$)?(?:#@([a-zA-Z_]\w*)@|[-#+ 0,]?[0-9.]*(?:(?:hh?|ll?|qztj)[douxX]|L[aAeEfFgG]|[@%aAcCdDeEfFgGoOspSuUxX]))"
+    r"%([1-9]\$)?(?:#@([a-zA-Z_]\w*)@|[-#+ 0,]?[0-9.]*(?:(?:hh?|ll?|[qztj])[douxX]|L[aAeEfFgG]|[@%aAcCdDeEfFgGoOspSuUxX]))"
 )
 not_first_placeholder = compile(r"%[2-9]\$")
 
-- 
2.43.0


From 57defe42150ec3cad2dfc909e3bc4ce5d8850401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:22 +0000
Subject: [PATCH 060/190] fix: Recognise Xcode placeholders also after inline
 elements

---
 python/moz/l10n/formats/xliff/parse_trans_unit.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/parse_trans_unit.py b/python/moz/l10n/formats/xliff/parse_trans_unit.py
index 347ac59..6f0579c 100644
--- a/python/moz/l10n/formats/xliff/parse_trans_unit.py
+++ b/python/moz/l10n/formats/xliff/parse_trans_unit.py
@@ -97,4 +97,7 @@ def parse_pattern(
             yield from parse_pattern(child, is_xcode)
             yield Markup("close", name)
         if child.tail:
-            yield child.tail
+            if is_xcode:
+                yield from parse_xcode_pattern(child.tail)
+            else:
+                yield child.tail
-- 
2.43.0


From 9233f97fe1d7be1aab7ad0f35d10e32eafda2ffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:24 +0000
Subject: [PATCH 061/190] fix: Select the plural variants of Xcode messages by
 a numerical placeholder

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 7a1826d..710fce3 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -235,6 +235,7 @@ def parse_xliff_xcstrings(
                         for el in pattern
                         if isinstance(el, Expression)
                         and isinstance(el.arg, VariableRef)
+                        and el.function in ("integer", "number")
                         and isinstance(src := el.attributes.get("source", None), str)
                         and not not_first_placeholder.match(src)
                     ),
-- 
2.43.0


From 334d724f71e941b267887a5f119c7798e8386538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:26 +0000
Subject: [PATCH 062/190] fix: Do not join the notes of Xcode .xcstrings units

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 710fce3..859b382 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -313,8 +313,9 @@ def parse_xliff_xcstrings_unit(
     target = unit_data.target
     meta = attrib_as_metadata(unit_data.unit, None, ("id",))
     comments: list[str] = []
-    for note in unit_data.notes:
-        meta += element_as_metadata(note, "note", True)
+    for idx, note in enumerate(unit_data.notes):
+        note_base = f"note[{idx + 1}]" if idx else "note"
+        meta += element_as_metadata(note, note_base, True)
         if note.text and not note.text.isspace():
             comments.append(note.text.strip())
     if from_source:
-- 
2.43.0


From e363d347fa6288395c1bb7fffc7c0cf9e05d2edb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:01 +0000
Subject: [PATCH 063/190] fix: Support translated Xcode substitutions of a
 message which is not itself translated

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 859b382..e54b3a8 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -177,12 +177,18 @@ def parse_xliff_xcstrings(
                 for keys_, pattern in msg.variants.items():
                     if str(keys_[sel_idx]) == id:
                         sub_ph_idx = next(
-                            idx
-                            for idx, el in enumerate(pattern)
-                            if isinstance(el, Expression)
-                            and el.attributes.get("substitution", None) == sub_idx
+                            (
+                                idx
+                                for idx, el in enumerate(pattern)
+                                if isinstance(el, Expression)
+                                and el.attributes.get("substitution", None) == sub_idx
+                            ),
+                            None,
                         )
-                        pattern[sub_ph_idx : sub_ph_idx + 1] = var_pattern
+                        if sub_ph_idx is None:  # no base message
+                            pattern[:] = var_pattern
+                        else:
+                            pattern[sub_ph_idx : sub_ph_idx + 1] = var_pattern
             for pattern in msg.variants.values():
                 pattern_: Pattern = []
                 last = None
-- 
2.43.0


From 746e249f1b75aad39e933ea121e1f15fa6be9477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:03 +0000
Subject: [PATCH 064/190] fix: Leave untranslated Xcode substitutions empty,
 rather than referring to themselves

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index e54b3a8..4bb94e7 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -155,6 +155,11 @@ def parse_xliff_xcstrings(
                 entry.meta += meta
 
                 if not var_pattern:
+                    if len(msg.selectors) == 1:
+                        # Leave out the text around the missing substitution
+                        for keys_, pattern in msg.variants.items():
+                            if str(keys_[0]) == id:
+                                pattern.clear()
                     continue
 
                 sub_decl = sub_vars.get(var_name, None)
-- 
2.43.0


From b7af921c5c65a9f12328e5f05916ff5e379567fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:05 +0000
Subject: [PATCH 065/190] fix: Retain the translated format keys of Xcode
 .stringsdict plurals

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 4bb94e7..0a932fb 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -401,6 +401,9 @@ def parse_xliff_stringsdict(
             meta += attrib_as_metadata(plural.format_key.unit, "format", ("id",))
             if plural.format_key.target is not None:
                 meta += attrib_as_metadata(plural.format_key.target, "format/target")
+                target = plural.format_key.target.text
+                if target and target != plural.format_key.source.text:
+                    meta.append(Metadata("format/target", target))
         msg = SelectMessage(
             declarations={plural.var_name: selector},
             selectors=(VariableRef(plural.var_name),),
-- 
2.43.0


From 023db54131fa388f0dd784414547da2ca8862e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:07 +0000
Subject: [PATCH 066/190] fix: Retain the notes of Xcode .stringsdict units

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 0a932fb..4a546e8 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -324,9 +324,8 @@ def parse_xliff_xcstrings_unit(
     target = unit_data.target
     meta = attrib_as_metadata(unit_data.unit, None, ("id",))
     comments: list[str] = []
-    for idx, note in enumerate(unit_data.notes):
-        note_base = f"note[{idx + 1}]" if idx else "note"
-        meta += element_as_metadata(note, note_base, True)
+    meta += notes_as_metadata(unit_data.notes, "")
+    for note in unit_data.notes:
         if note.text and not note.text.isspace():
             comments.append(note.text.strip())
     if from_source:
@@ -404,6 +403,7 @@ def parse_xliff_stringsdict(
                 target = plural.format_key.target.text
                 if target and target != plural.format_key.source.text:
                     meta.append(Metadata("format/target", target))
+            meta += notes_as_metadata(plural.format_key.notes, "format/")
         msg = SelectMessage(
             declarations={plural.var_name: selector},
             selectors=(VariableRef(plural.var_name),),
@@ -423,6 +423,7 @@ def parse_xliff_stringsdict(
                 else:
                     meta += attrib_as_metadata(variant.target, f"{key}/target")
                     pattern_src = variant.target.text
+            meta += notes_as_metadata(variant.notes, f"{key}/")
             msg.variants[(CatchallKey("other") if key == "other" else key,)] = list(
                 parse_xcode_pattern(pattern_src)
             )
@@ -510,6 +511,12 @@ def get_xcode_unit_data(ns: str, unit: etree._Element) -> XcodeUnitData:
     return XcodeUnitData(unit, source, target, notes)
 
 
+def notes_as_metadata(notes: list[etree._Element], base: str) -> Iterator[Metadata]:
+    for idx, note in enumerate(notes):
+        name = f"note[{idx + 1}]" if idx else "note"
+        yield from element_as_metadata(note, base + name, True)
+
+
 def parse_xcode_pattern(src: str | None) -> Iterator[str | Expression]:
     if not src:
         return
-- 
2.43.0


From 2e9d67f63c0b4b08b0d9f077a3760bf20d41f1ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:05:50 +0000
Subject: [PATCH 067/190] fix: Recognise Xcode %F placeholders as numbers

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 4a546e8..98ae65e 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -544,7 +544,7 @@ def parse_xcode_pattern(src: str | None) -> Iterator[str | Expression]:
                 elif format in {"d", "D", "o", "O", "p", "u", "U", "x", "X"}:
                     name = "int"
                     func = "integer"
-                elif format in {"a", "A", "e", "E", "f", "g", "G"}:
+                elif format in {"a", "A", "e", "E", "f", "F", "g", "G"}:
                     name = "num"
                     func = "number"
                 else:
-- 
2.43.0


From 3226e3c745e44f60732ec372ad5a4d0955409238 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:18 +0000
Subject: [PATCH 068/190] fix: Match only . as the decimal separator of MF2
 numbers, and only ASCII digits

---
 python/moz/l10n/formats/mf2/validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/mf2/validate.py b/python/moz/l10n/formats/mf2/validate.py
index d379ace..d875512 100644
--- a/python/moz/l10n/formats/mf2/validate.py
+++ b/python/moz/l10n/formats/mf2/validate.py
@@ -32,7 +32,7 @@ from ...model import (
 _name_start = r"a-zA-Z_\xC0-\xD6\xD8-\xF6\xF8-\u02FF\u0370-\u037D\u037F-\u061B\u061D-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFC\U00010000-\U000EFFFF"
 name_re = compile(f"[{_name_start}][{_name_start}0-9-.\xb7\u0300-\u036f\u203f-\u2040]*")
 identifier_re = compile(f"{name_re.pattern}(?::{name_re.pattern})?")
-number_re = compile(r"-?(?:0|(?:[1-9]\d*))(?:.\d+)?(?:[eE][-+]?\d+)?")
+number_re = compile(r"-?(?:0|(?:[1-9][0-9]*))(?:\.[0-9]+)?(?:[eE][-+]?[0-9]+)?")
 
 
 class MF2ValidationError(ValueError):
-- 
2.43.0


From 62094e4140acc9172d6b8cf15fde72dec68659e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:20 +0000
Subject: [PATCH 069/190] fix: Serialize empty literals in MF2 expressions

---
 python/moz/l10n/formats/mf2/serialize.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/serialize.py b/python/moz/l10n/formats/mf2/serialize.py
index 1c90c29..595b365 100644
--- a/python/moz/l10n/formats/mf2/serialize.py
+++ b/python/moz/l10n/formats/mf2/serialize.py
@@ -103,10 +103,10 @@ def _quoted_pattern(pattern: Pattern) -> Iterator[str]:
 
 def _expression(expr: Expression) -> Iterator[str]:
     yield "{"
-    if expr.arg:
+    if expr.arg is not None:
         yield _value(expr.arg)
     if expr.function:
-        yield f" :{expr.function}" if expr.arg else f":{expr.function}"
+        yield f":{expr.function}" if expr.arg is None else f" :{expr.function}"
     yield from _options(expr.options)
     yield from _attributes(expr.attributes)
     yield "}"
-- 
2.43.0


From 649372db390bac7e8b9a6b587631c29ec7219a25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:22 +0000
Subject: [PATCH 070/190] fix: Require space between an empty literal and a
 function in MF2

---
 python/moz/l10n/formats/mf2/message_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/mf2/message_parser.py b/python/moz/l10n/formats/mf2/message_parser.py
index 95b5735..4e08db1 100644
--- a/python/moz/l10n/formats/mf2/message_parser.py
+++ b/python/moz/l10n/formats/mf2/message_parser.py
@@ -264,7 +264,7 @@ class MF2Parser:
             arg_end = self.pos
             ch = self.skip_opt_space()
         if ch == ":":
-            if arg and self.pos == arg_end:
+            if arg is not None and self.pos == arg_end:
                 raise MF2ParseError(self, "Expected space")
             function = self.identifier(1)
             options = self.options()
-- 
2.43.0


From 9e37cc4135eef8b2bb1f883a4bd8aa5b1a0ca2c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:24 +0000
Subject: [PATCH 071/190] fix: Reject a trailing backslash in MF2 messages

---
 python/moz/l10n/formats/mf2/message_parser.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/mf2/message_parser.py b/python/moz/l10n/formats/mf2/message_parser.py
index 4e08db1..3f7c605 100644
--- a/python/moz/l10n/formats/mf2/message_parser.py
+++ b/python/moz/l10n/formats/mf2/message_parser.py
@@ -242,6 +242,8 @@ class MF2Parser:
             else:
                 text += ch
             self.pos += 1
+        if at_esc:
+            raise MF2ParseError(self, "Invalid escape at message end")
         return text
 
     def expression_or_markup(self) -> Expression | Markup:
-- 
2.43.0


From 09f7e02fbd5464ab056ebccf12283faa79954f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:25 +0000
Subject: [PATCH 072/190] fix: Allow bidi marks between the keys and pattern of
 an MF2 variant

---
 python/moz/l10n/formats/mf2/message_parser.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/moz/l10n/formats/mf2/message_parser.py b/python/moz/l10n/formats/mf2/message_parser.py
index 3f7c605..69b5ae8 100644
--- a/python/moz/l10n/formats/mf2/message_parser.py
+++ b/python/moz/l10n/formats/mf2/message_parser.py
@@ -199,6 +199,7 @@ class MF2Parser:
                 self,
                 f"Variant key mismatch, expected {num_sel} but found {len(keys)}",
             )
+        self.skip_opt_space()
         return tuple(keys), self.quoted_pattern()
 
     def quoted_pattern(self) -> Pattern:
-- 
2.43.0


From d4e38cec312cdba714f017f5b5e25c6bf47e4c89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:27 +0000
Subject: [PATCH 073/190] fix: Quote MF2 patterns with a . after bidi marks or
 empty strings at their start

---
 python/moz/l10n/formats/mf2/serialize.py | 17 +++++------------
 1 file changed, 5 insertions(+), 12 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/serialize.py b/python/moz/l10n/formats/mf2/serialize.py
index 595b365..fc33f6f 100644
--- a/python/moz/l10n/formats/mf2/serialize.py
+++ b/python/moz/l10n/formats/mf2/serialize.py
@@ -30,7 +30,7 @@ from ...model import (
 )
 from .validate import name_re, number_re
 
-complex_start_re = compile(r"[\t\n\r \u3000]*\.")
+complex_start_re = compile(r"[\t\n\r \u3000\u061c\u200e\u200f\u2066-\u2069]*\.")
 literal_esc_re = compile(r"[\\|]")
 text_esc_re = compile(r"[\\{}]")
 
@@ -42,17 +42,10 @@ def mf2_serialize_message(message: Message) -> str:
     Does not validate the message before serialization;
     for that, use `mf2_validate_message()`.
     """
-    if (
-        isinstance(message, PatternMessage)
-        and not message.declarations
-        and (
-            not message.pattern
-            or not isinstance(part0 := message.pattern[0], str)
-            or not complex_start_re.match(part0)
-        )
-    ):
-        # simple message
-        return "".join(mf2_serialize_pattern(message.pattern))
+    if isinstance(message, PatternMessage) and not message.declarations:
+        simple = "".join(mf2_serialize_pattern(message.pattern))
+        if not complex_start_re.match(simple):
+            return simple
 
     res = ""
     for name, expr in message.declarations.items():
-- 
2.43.0


From 0b8da62911d845ecdbf45b788d2280d904835658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:29 +0000
Subject: [PATCH 074/190] fix: Raise MF2ValidationError for all malformed MF2
 JSON

---
 python/moz/l10n/formats/mf2/from_json.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/mf2/from_json.py b/python/moz/l10n/formats/mf2/from_json.py
index 654484b..38f1a86 100644
--- a/python/moz/l10n/formats/mf2/from_json.py
+++ b/python/moz/l10n/formats/mf2/from_json.py
@@ -69,7 +69,7 @@ def mf2_from_json(json: dict[str, Any]) -> Message:
             for vari in json["variants"]
         }
         return SelectMessage(declarations, selectors, variants)
-    except (IndexError, KeyError, TypeError) as err:
+    except (AttributeError, IndexError, KeyError, TypeError) as err:
         raise MF2ValidationError(f"Invalid JSON: {err!r}")
 
 
-- 
2.43.0


From 3273f02f5abe0ac405db0ede0f0a405e4cd4be3f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:31 +0000
Subject: [PATCH 075/190] fix: Reject duplicate variants in MF2 JSON

---
 python/moz/l10n/formats/mf2/from_json.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/from_json.py b/python/moz/l10n/formats/mf2/from_json.py
index 38f1a86..2169c4a 100644
--- a/python/moz/l10n/formats/mf2/from_json.py
+++ b/python/moz/l10n/formats/mf2/from_json.py
@@ -64,10 +64,12 @@ def mf2_from_json(json: dict[str, Any]) -> Message:
 
         assert msg_type == "select"
         selectors = tuple(_variable(sel) for sel in json["selectors"])
-        variants = {
-            tuple(_key(key) for key in vari["keys"]): _pattern(vari["value"])
-            for vari in json["variants"]
-        }
+        variants: dict[tuple[str | CatchallKey, ...], Pattern] = {}
+        for vari in json["variants"]:
+            keys = tuple(_key(key) for key in vari["keys"])
+            if keys in variants:
+                raise MF2ValidationError(f"Duplicate JSON variant: {vari}")
+            variants[keys] = _pattern(vari["value"])
         return SelectMessage(declarations, selectors, variants)
     except (AttributeError, IndexError, KeyError, TypeError) as err:
         raise MF2ValidationError(f"Invalid JSON: {err!r}")
-- 
2.43.0


From cfcaf356f0093d9fcd6dfd62b4f737c929fa2ec2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:33 +0000
Subject: [PATCH 076/190] fix: Reject empty functions in MF2 JSON

---
 python/moz/l10n/formats/mf2/from_json.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/from_json.py b/python/moz/l10n/formats/mf2/from_json.py
index 2169c4a..f453645 100644
--- a/python/moz/l10n/formats/mf2/from_json.py
+++ b/python/moz/l10n/formats/mf2/from_json.py
@@ -90,8 +90,8 @@ def _expression(json: dict[str, Any]) -> Expression:
     if json["type"] != "expression":
         raise MF2ValidationError(f"Invalid JSON expression type: {json}")
     arg = _value(json["arg"]) if "arg" in json else None
-    json_func = json.get("function", None)
-    if json_func:
+    if "function" in json:
+        json_func = json["function"]
         if json_func["type"] != "function":
             raise MF2ValidationError(f"Invalid JSON function type: {json_func}")
         function = _string(json_func, "name")
-- 
2.43.0


From 865358f804d7babd84388dd32a7e6024c24807d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:36 +0000
Subject: [PATCH 077/190] fix: Reject self-referential local declarations in
 MF2 JSON

---
 python/moz/l10n/formats/mf2/from_json.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/formats/mf2/from_json.py b/python/moz/l10n/formats/mf2/from_json.py
index f453645..c4d4f79 100644
--- a/python/moz/l10n/formats/mf2/from_json.py
+++ b/python/moz/l10n/formats/mf2/from_json.py
@@ -54,6 +54,9 @@ def mf2_from_json(json: dict[str, Any]) -> Message:
                     or decl_expr.arg.name != decl_name
                 ):
                     raise MF2ValidationError(f"Invalid JSON .input declaration: {decl}")
+            elif isinstance(decl_expr.arg, VariableRef):
+                if decl_expr.arg.name == decl_name:
+                    raise MF2ValidationError(f"Invalid JSON .local declaration: {decl}")
             if decl_name in declarations:
                 raise MF2ValidationError(f"Duplicate JSON declaration for ${decl_name}")
             declarations[decl_name] = decl_expr
-- 
2.43.0


From 387b99bf26700363126b6851b42c6c555775c92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:53 +0000
Subject: [PATCH 078/190] fix: Always sort MF2 declarations after their
 dependencies

---
 python/moz/l10n/formats/mf2/validate.py | 23 +++++++----------------
 1 file changed, 7 insertions(+), 16 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/validate.py b/python/moz/l10n/formats/mf2/validate.py
index d875512..e1a6fe8 100644
--- a/python/moz/l10n/formats/mf2/validate.py
+++ b/python/moz/l10n/formats/mf2/validate.py
@@ -15,7 +15,6 @@
 from __future__ import annotations
 
 from collections.abc import Iterable, Mapping
-from functools import cmp_to_key
 from re import compile
 from typing import Literal
 
@@ -106,17 +105,6 @@ def _validate_declarations(declarations: dict[str, Expression]) -> None:
                     deep_dependencies(dep, res)
         return res
 
-    def cmp_decl_data(a: tuple[str, bool], b: tuple[str, bool]) -> int:
-        a_name, a_input = a
-        b_name, b_input = b
-        if a_name in dependencies[b_name]:
-            return -1
-        if b_name in dependencies[a_name]:
-            return 1
-        if a_input != b_input:
-            return -1 if a_input else 1
-        return -1 if a_name < b_name else 1
-
     if not isinstance(declarations, Mapping):
         raise MF2ValidationError(f"Invalid declarations: {declarations}")
     for name, expr in declarations.items():
@@ -143,10 +131,13 @@ def _validate_declarations(declarations: dict[str, Expression]) -> None:
         dependencies[name] = deps
 
     if len(declarations) > 1:
-        decl_data.sort(key=cmp_to_key(cmp_decl_data))
-        inserts = [(name, declarations.pop(name)) for name, _ in decl_data[1:]]
-        for name, expr in inserts:
-            declarations[name] = expr
+        # Dependencies first, then .input before .local, and by name
+        decl_data.sort(key=lambda data: (not data[1], data[0]))
+        todo = [name for name, _ in decl_data]
+        while todo:
+            name = next(n for n in todo if dependencies[n].isdisjoint(todo))
+            todo.remove(name)
+            declarations[name] = declarations.pop(name)
 
 
 def _validate_pattern(pattern: Pattern) -> None:
-- 
2.43.0


From 2c9a091ef14145698957f6295d2ecc7e52ee9be2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:19 +0000
Subject: [PATCH 079/190] fix: Reject MF2 JSON with other values in place of
 arrays

---
 python/moz/l10n/formats/mf2/from_json.py | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/from_json.py b/python/moz/l10n/formats/mf2/from_json.py
index c4d4f79..bada971 100644
--- a/python/moz/l10n/formats/mf2/from_json.py
+++ b/python/moz/l10n/formats/mf2/from_json.py
@@ -42,7 +42,7 @@ def mf2_from_json(json: dict[str, Any]) -> Message:
             raise MF2ValidationError(f"Invalid JSON message: {json}")
 
         declarations: dict[str, Expression] = {}
-        for decl in json["declarations"]:
+        for decl in _list(json["declarations"]):
             decl_type = decl["type"]
             if decl_type not in {"input", "local"}:
                 raise MF2ValidationError(f"Invalid JSON declaration type: {decl}")
@@ -66,10 +66,10 @@ def mf2_from_json(json: dict[str, Any]) -> Message:
             return PatternMessage(pattern, declarations)
 
         assert msg_type == "select"
-        selectors = tuple(_variable(sel) for sel in json["selectors"])
+        selectors = tuple(_variable(sel) for sel in _list(json["selectors"]))
         variants: dict[tuple[str | CatchallKey, ...], Pattern] = {}
-        for vari in json["variants"]:
-            keys = tuple(_key(key) for key in vari["keys"])
+        for vari in _list(json["variants"]):
+            keys = tuple(_key(key) for key in _list(vari["keys"]))
             if keys in variants:
                 raise MF2ValidationError(f"Duplicate JSON variant: {vari}")
             variants[keys] = _pattern(vari["value"])
@@ -85,7 +85,7 @@ def _pattern(json: list[Any]) -> Pattern:
         else _markup(part)
         if part["type"] == "markup"
         else _expression(part)
-        for part in json
+        for part in _list(json)
     ]
 
 
@@ -159,6 +159,13 @@ def _variable(json: dict[str, Any]) -> VariableRef:
     return VariableRef(_string(json, "name"))
 
 
+def _list(value: list[Any]) -> list[Any]:
+    if isinstance(value, list):
+        return value
+    else:
+        raise MF2ValidationError(f"Expected a JSON array: {value}")
+
+
 def _string(obj: dict[str, Any], key: str | None = None) -> str:
     value = obj if key is None else obj.get(key, None)
     if isinstance(value, str):
-- 
2.43.0


From ecb8f23b8dbbbb51d2e65f3121a2a48287d1b3a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:20 +0000
Subject: [PATCH 080/190] fix: Do not share attributes between messages and
 their JSON representations

---
 python/moz/l10n/message/from_json.py | 4 ++--
 python/moz/l10n/message/to_json.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/message/from_json.py b/python/moz/l10n/message/from_json.py
index a19bb63..72ce5fb 100644
--- a/python/moz/l10n/message/from_json.py
+++ b/python/moz/l10n/message/from_json.py
@@ -110,7 +110,7 @@ def _expression(json: dict[str, Any]) -> Expression:
         arg = None
     function = json.get("fn", None)
     options = _options(json["opt"]) if function is not None and "opt" in json else {}
-    return Expression(arg, function, options, json.get("attr", {}))
+    return Expression(arg, function, options, dict(json.get("attr", {})))
 
 
 def _markup(json: dict[str, Any]) -> Markup:
@@ -128,7 +128,7 @@ def _markup(json: dict[str, Any]) -> Markup:
         kind,
         name,
         _options(json.get("opt", {})),
-        json.get("attr", {}),
+        dict(json.get("attr", {})),
     )
 
 
diff --git a/python/moz/l10n/message/to_json.py b/python/moz/l10n/message/to_json.py
index 257de8a..69af182 100644
--- a/python/moz/l10n/message/to_json.py
+++ b/python/moz/l10n/message/to_json.py
@@ -110,7 +110,7 @@ def _expression(expr: Expression) -> dict[str, Any]:
         if expr.options:
             json["opt"] = _options(expr.options)
     if expr.attributes:
-        json["attr"] = expr.attributes
+        json["attr"] = dict(expr.attributes)
     return json
 
 
@@ -121,7 +121,7 @@ def _markup(markup: Markup) -> dict[str, Any]:
     if markup.options:
         json["opt"] = _options(markup.options)
     if markup.attributes:
-        json["attr"] = markup.attributes
+        json["attr"] = dict(markup.attributes)
     return json
 
 
-- 
2.43.0


From 53179331d85aedc221ffbe668e5a4e316cdaa107 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:06 +0000
Subject: [PATCH 081/190] fix: Make entry JSON keys unambiguous for identifiers
 with backslashes

---
 python/moz/l10n/message/from_json.py | 16 +++++++++++-----
 python/moz/l10n/message/to_json.py   |  7 ++++++-
 2 files changed, 17 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/message/from_json.py b/python/moz/l10n/message/from_json.py
index 72ce5fb..8f47f09 100644
--- a/python/moz/l10n/message/from_json.py
+++ b/python/moz/l10n/message/from_json.py
@@ -15,7 +15,7 @@
 from __future__ import annotations
 
 from collections.abc import Mapping
-from re import split
+from re import split, sub
 from typing import Any, Literal
 
 from ..model import (
@@ -39,10 +39,16 @@ def entry_from_json(key: str, json: dict[str, Any]) -> Entry[Message]:
 
     May raise `MF2ValidationError`.
     """
-    if r"\." in key:
-        id = tuple(str(part).replace(r"\.", ".") for part in split(r"(?<!\\)\.", key))
-    else:
-        id = tuple(key.split("."))
+    # Dots are separators if preceded by an even number of backslashes
+    parts = split(r"(?<!\\)((?:\\\\)*)\.", key) + [""]
+    id = tuple(
+        sub(
+            r"(\\+)(\.|\Z)",
+            lambda m: m[1][: len(m[1]) // 2] + m[2],
+            part + backslashes,
+        )
+        for part, backslashes in zip(parts[::2], parts[1::2])
+    )
     meta = [Metadata(key, value) for key, value in json["@"]] if "@" in json else []
 
     return Entry(
diff --git a/python/moz/l10n/message/to_json.py b/python/moz/l10n/message/to_json.py
index 69af182..86420a9 100644
--- a/python/moz/l10n/message/to_json.py
+++ b/python/moz/l10n/message/to_json.py
@@ -14,6 +14,7 @@
 
 from __future__ import annotations
 
+from re import sub
 from typing import Any
 
 from ..model import (
@@ -35,7 +36,11 @@ def entry_to_json(entry: Entry[Message]) -> tuple[str, dict[str, Any]]:
     Returns the stringified entry id and a JSON object.
     The JSON Schema of the output is provided as [entry.json](../../../../schemas/entry.json).
     """
-    id = ".".join(part.replace(".", r"\.") for part in entry.id)
+    id = ".".join(
+        # Backslashes are only doubled where they'd otherwise escape a dot.
+        sub(r"(\\+)(?=\.|\Z)", r"\1\1", part).replace(".", r"\.")
+        for part in entry.id
+    )
     json: dict[str, Any] = {}
     if entry.meta:
         json["@"] = list([m.key, m.value] for m in entry.meta)
-- 
2.43.0


From fa255183256e288aa91c8151650345f1436ef27a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:25 +0000
Subject: [PATCH 082/190] fix: Include declarations of empty messages in entry
 JSON

---
 python/moz/l10n/message/to_json.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/moz/l10n/message/to_json.py b/python/moz/l10n/message/to_json.py
index 86420a9..8430ef5 100644
--- a/python/moz/l10n/message/to_json.py
+++ b/python/moz/l10n/message/to_json.py
@@ -50,6 +50,7 @@ def entry_to_json(entry: Entry[Message]) -> tuple[str, dict[str, Any]]:
         not entry.properties
         or not isinstance(entry.value, PatternMessage)
         or entry.value.pattern
+        or entry.value.declarations
     ):
         json["="] = message_to_json(entry.value)
     if entry.properties:
-- 
2.43.0


From 6c4a181e7e640b73b1fad22bfcda7841775fc9e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:34:27 +0000
Subject: [PATCH 083/190] fix: Raise MF2ValidationError for malformed message
 and entry JSON

---
 python/moz/l10n/message/from_json.py | 83 ++++++++++++++++------------
 1 file changed, 47 insertions(+), 36 deletions(-)

diff --git a/python/moz/l10n/message/from_json.py b/python/moz/l10n/message/from_json.py
index 8f47f09..94ab362 100644
--- a/python/moz/l10n/message/from_json.py
+++ b/python/moz/l10n/message/from_json.py
@@ -18,6 +18,7 @@ from collections.abc import Mapping
 from re import split, sub
 from typing import Any, Literal
 
+from ..formats.mf2.validate import MF2ValidationError
 from ..model import (
     CatchallKey,
     Entry,
@@ -49,17 +50,22 @@ def entry_from_json(key: str, json: dict[str, Any]) -> Entry[Message]:
         )
         for part, backslashes in zip(parts[::2], parts[1::2])
     )
-    meta = [Metadata(key, value) for key, value in json["@"]] if "@" in json else []
-
-    return Entry(
-        id=id,
-        meta=meta,
-        comment=json.get("#", ""),
-        value=message_from_json(json["="]) if "=" in json else PatternMessage([]),
-        properties={key: message_from_json(value) for key, value in json["+"].items()}
-        if "+" in json
-        else {},
-    )
+    try:
+        meta = [Metadata(*pair) for pair in json["@"]] if "@" in json else []
+
+        return Entry(
+            id=id,
+            meta=meta,
+            comment=json.get("#", ""),
+            value=message_from_json(json["="]) if "=" in json else PatternMessage([]),
+            properties={
+                key: message_from_json(value) for key, value in json["+"].items()
+            }
+            if "+" in json
+            else {},
+        )
+    except (AttributeError, IndexError, KeyError, TypeError) as err:
+        raise MF2ValidationError(f"Invalid JSON: {err!r}")
 
 
 def message_from_json(json: list[Any] | dict[str, Any]) -> Message:
@@ -69,34 +75,39 @@ def message_from_json(json: list[Any] | dict[str, Any]) -> Message:
 
     May raise `MF2ValidationError`.
     """
-    if isinstance(json, Mapping) and "sel" in json:
-        return SelectMessage(
-            declarations={
-                name: _expression(value) for name, value in json["decl"].items()
-            },
-            selectors=tuple(VariableRef(sel) for sel in json["sel"]),
-            variants={
-                tuple(
-                    key if isinstance(key, str) else CatchallKey(key["*"] or None)
-                    for key in variant["keys"]
-                ): _pattern(variant["pat"])
-                for variant in json["alt"]
-            },
-        )
-    else:
-        declarations = {}
-        if isinstance(json, Mapping):
-            if "decl" in json:
-                declarations = {
+    try:
+        if isinstance(json, Mapping) and "sel" in json:
+            return SelectMessage(
+                declarations={
                     name: _expression(value) for name, value in json["decl"].items()
-                }
-            pattern = _pattern(json["msg"])
+                },
+                selectors=tuple(VariableRef(sel) for sel in json["sel"]),
+                variants={
+                    tuple(
+                        key if isinstance(key, str) else CatchallKey(key["*"] or None)
+                        for key in variant["keys"]
+                    ): _pattern(variant["pat"])
+                    for variant in json["alt"]
+                },
+            )
         else:
-            pattern = _pattern(json)
-        return PatternMessage(pattern, declarations)
+            declarations = {}
+            if isinstance(json, Mapping):
+                if "decl" in json:
+                    declarations = {
+                        name: _expression(value) for name, value in json["decl"].items()
+                    }
+                pattern = _pattern(json["msg"])
+            else:
+                pattern = _pattern(json)
+            return PatternMessage(pattern, declarations)
+    except (AttributeError, IndexError, KeyError, TypeError) as err:
+        raise MF2ValidationError(f"Invalid JSON: {err!r}")
 
 
 def _pattern(json: list[str | dict[str, Any]]) -> Pattern:
+    if not isinstance(json, list):
+        raise MF2ValidationError(f"Expected a JSON array: {json}")
     return [
         part
         if isinstance(part, str)
@@ -116,7 +127,7 @@ def _expression(json: dict[str, Any]) -> Expression:
         arg = None
     function = json.get("fn", None)
     options = _options(json["opt"]) if function is not None and "opt" in json else {}
-    return Expression(arg, function, options, dict(json.get("attr", {})))
+    return Expression(arg, function, options, dict(json.get("attr", {}).items()))
 
 
 def _markup(json: dict[str, Any]) -> Markup:
@@ -134,7 +145,7 @@ def _markup(json: dict[str, Any]) -> Markup:
         kind,
         name,
         _options(json.get("opt", {})),
-        dict(json.get("attr", {})),
+        dict(json.get("attr", {}).items()),
     )
 
 
-- 
2.43.0


From 8dd0dcb3ac9e3f3c0ed6a25bb71a81cd1106faa5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:53:25 +0000
Subject: [PATCH 084/190] fix: Reject Fluent message sources with content after
 the pattern

---
 python/moz/l10n/formats/fluent/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index ff467f5..8f0b15c 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -175,6 +175,9 @@ def fluent_parse_message(source: str) -> Message:
         ftl_pattern = parser.get_pattern(ps, is_block=False)
     except ParseError as err:
         raise ValueError(err.message or "Fluent parser error") from err
+    trailing = source[ps.index :].strip()
+    if trailing:
+        raise ValueError(f"Unexpected content after Fluent pattern: {trailing}")
     return message(ftl_pattern)
 
 
-- 
2.43.0


From 078b320316589603e6e7c6fa3da95a55bed330d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:49 +0000
Subject: [PATCH 085/190] fix: Do not fail on undecodable bytes when detecting
 the format

---
 python/moz/l10n/formats/__init__.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/__init__.py b/python/moz/l10n/formats/__init__.py
index f122e48..f246f24 100644
--- a/python/moz/l10n/formats/__init__.py
+++ b/python/moz/l10n/formats/__init__.py
@@ -115,7 +115,7 @@ def detect_format(name: str | None, source: bytes | str | None = None) -> Format
     if ext != ".xml":
         try:
             json, valid_json = json_linecomment_loads(source)
-        except JSONDecodeError:
+        except (JSONDecodeError, UnicodeDecodeError):
             json, valid_json = None, False
         if is_object_of_strings(json):
             assert isinstance(json, dict)
-- 
2.43.0


From 90dee9d13dc25ad2e65315f0e47a9e62d51ee861 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:03:51 +0000
Subject: [PATCH 086/190] fix: Detect JSON with nested message objects as plain
 JSON

---
 python/moz/l10n/formats/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/__init__.py b/python/moz/l10n/formats/__init__.py
index f246f24..0fb7b45 100644
--- a/python/moz/l10n/formats/__init__.py
+++ b/python/moz/l10n/formats/__init__.py
@@ -163,9 +163,12 @@ def is_webext_message(obj: Any) -> bool:
     has_message = False
     for key, value in obj.items():
         if key == "message":
+            if not isinstance(value, str):
+                return False
             has_message = True
         elif key == "description":
-            pass
+            if not isinstance(value, str):
+                return False
         elif key == "placeholders":
             if not isinstance(value, dict):
                 return False
-- 
2.43.0


From 100de47217b92d861a91ec5a758796bb56a0faa1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:37 +0000
Subject: [PATCH 087/190] fix: Ignore the order of sections and entries with
 the same id in l10n_equal

---
 python/moz/l10n/resource/l10n_equal.py | 27 +++++++++++++++++++++++---
 1 file changed, 24 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/resource/l10n_equal.py b/python/moz/l10n/resource/l10n_equal.py
index 0a57878..c9e7ff4 100644
--- a/python/moz/l10n/resource/l10n_equal.py
+++ b/python/moz/l10n/resource/l10n_equal.py
@@ -15,7 +15,8 @@
 from __future__ import annotations
 
 from collections import defaultdict
-from typing import Any
+from operator import eq
+from typing import Any, Callable
 
 from ..model import Entry, Resource, Section
 
@@ -32,17 +33,37 @@ def l10n_equal(a: Resource[Any], b: Resource[Any]) -> bool:
         a.format == b.format
         and a.comment.strip() == b.comment.strip()
         and l10n_meta(a) == l10n_meta(b)
-        and l10n_sections(a) == l10n_sections(b)
+        and same_items(l10n_sections(a), l10n_sections(b), same_section)
     )
 
 
+def same_section(a: tuple[Any, ...], b: tuple[Any, ...]) -> bool:
+    return a[:3] == b[:3] and same_items(a[3], b[3], eq)
+
+
+def same_items(a: list[Any], b: list[Any], same: Callable[[Any, Any], bool]) -> bool:
+    """
+    Compare lists that are sorted by id,
+    ignoring the order of items with the same id.
+    """
+    if len(a) != len(b):
+        return False
+    rest = list(reversed(b))
+    for x in a:
+        idx = next((i for i in reversed(range(len(rest))) if same(x, rest[i])), None)
+        if idx is None:
+            return False
+        del rest[idx]
+    return True
+
+
 def l10n_sections(resource: Resource[Any]) -> list[tuple[Any, ...]]:
     ls = [
         (section.id, section.comment.strip(), l10n_meta(section), l10n_entries(section))
         for section in resource.sections
         if any(isinstance(entry, Entry) for entry in section.entries)
     ]
-    ls.sort(key=lambda s: s[0])
+    ls.sort(key=lambda s: (s[0], bool(s[1] or s[2])))
     nonempty_idx = next(
         (idx for idx, (id, comment, meta, _) in enumerate(ls) if id or comment or meta),
         len(ls),
-- 
2.43.0


From fea68462e74cef9e2e89080d0786804a5cf5288c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:30 +0000
Subject: [PATCH 088/190] fix: Match config paths with regex special characters
 literally

---
 python/moz/l10n/paths/config.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index d639850..cab029b 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -20,7 +20,7 @@ from collections.abc import Callable, Iterator
 from glob import glob
 from os import sep
 from os.path import dirname, isfile, join, normpath, relpath
-from re import Pattern, compile
+from re import Pattern, compile, escape
 from typing import Any, cast
 
 from .android_locale import get_android_locale
@@ -31,7 +31,7 @@ else:
     from tomli import load
 
 path_stars = compile(r"[*](?:[*](?:[/\\][*]*)?)?")
-path_var = compile(r"{(\w+)}")
+path_part = compile(r"{(\w+)}|" + path_stars.pattern)
 
 _DEFAULT_LOCALE_MAP: dict[str, Callable[[str], str]] = {
     "locale": lambda locale: locale,
@@ -56,14 +56,18 @@ def path_regex(path: str) -> Pattern[str]:
     """
     if path.startswith("{l10n_base}/"):
         path = path[12:]
-    path = path_stars.sub(
-        lambda m: (
-            "([^/]*)" if m[0] == "*" else "((?:.*/)?)" if m[0] == "**/" else "(.*)"
-        ),
-        path,
-    )
-    path = path_var.sub(r"(?P<\1>[^/]*)", path)
-    return compile(path)
+    res = ""
+    pos = 0
+    for m in path_part.finditer(path):
+        res += escape(path[pos : m.start()])
+        pos = m.end()
+        if m[1]:
+            res += f"(?P<{m[1]}>[^/]*)"
+        elif m[0] == "*":
+            res += "([^/]*)"
+        else:
+            res += "((?:.*/)?)" if m[0] == "**/" else "(.*)"
+    return compile(res + escape(path[pos:]))
 
 
 class PartialMap(dict[str, str]):
@@ -155,7 +159,7 @@ class L10nConfigPaths:
                         f"Wildcard mismatch between reference & l10n: {path}"
                     )
                 ref_re = compile(
-                    path_stars.sub("(.*)", ref.replace(sep, "/").replace(".", r"\."))
+                    "(.*)".join(map(escape, path_stars.split(ref.replace(sep, "/"))))
                 )
                 *tgt_parts, tgt_end = path_stars.split(target)
 
-- 
2.43.0


From 71fe78d2a62f0254e7eca85b034ff884a57481cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:32 +0000
Subject: [PATCH 089/190] fix: Find reference files in config directories with
 glob characters in their path

---
 python/moz/l10n/paths/config.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index cab029b..62e8a9f 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -17,6 +17,7 @@ from __future__ import annotations
 import sys
 from collections import defaultdict
 from collections.abc import Callable, Iterator
+from glob import escape as glob_escape
 from glob import glob
 from os import sep
 from os.path import dirname, isfile, join, normpath, relpath
@@ -154,6 +155,10 @@ class L10nConfigPaths:
             self._templates.append((path_stars.sub("{}", ref), path_regex(target)))
             locales: list[str] | None = path.get("locales", None)
             if "*" in ref:
+                # Literal parts of the root directory are not a glob pattern
+                ref_glob = normpath(
+                    join(glob_escape(self._ref_root), path["reference"])
+                )
                 if ref.count("*") != target.count("*"):
                     raise ValueError(
                         f"Wildcard mismatch between reference & l10n: {path}"
@@ -170,7 +175,7 @@ class L10nConfigPaths:
                         "".join(a + b for a, b in zip(tgt_parts, m.groups())) + tgt_end
                     )
 
-                for ref_file in glob(ref, recursive=True):
+                for ref_file in glob(ref_glob, recursive=True):
                     if isfile(ref_file):
                         self._path_data[ref_file][get_target(ref_file)] = locales
                 if fp:
-- 
2.43.0


From 41dec636b3e712f0dd4f7339dd0a347e4e0e2af0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:35 +0000
Subject: [PATCH 090/190] fix: Match single stars in config references to one
 path part only

---
 python/moz/l10n/paths/config.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 62e8a9f..6f5eccb 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -163,9 +163,7 @@ class L10nConfigPaths:
                     raise ValueError(
                         f"Wildcard mismatch between reference & l10n: {path}"
                     )
-                ref_re = compile(
-                    "(.*)".join(map(escape, path_stars.split(ref.replace(sep, "/"))))
-                )
+                ref_re = path_regex(ref.replace(sep, "/"))
                 *tgt_parts, tgt_end = path_stars.split(target)
 
                 def get_target(ref_file: str) -> str:
@@ -179,7 +177,6 @@ class L10nConfigPaths:
                     if isfile(ref_file):
                         self._path_data[ref_file][get_target(ref_file)] = locales
                 if fp:
-                    ref_re = path_regex(ref.replace(sep, "/"))
                     fp_match = {
                         path for path in fp if ref_re.fullmatch(path.replace(sep, "/"))
                     }
-- 
2.43.0


From e045990258f7025b7bacd57f5664e25244850dfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:37 +0000
Subject: [PATCH 091/190] fix: Support repeated variables in config l10n paths

---
 python/moz/l10n/paths/config.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 6f5eccb..d76ac04 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -59,11 +59,13 @@ def path_regex(path: str) -> Pattern[str]:
         path = path[12:]
     res = ""
     pos = 0
+    vars: set[str] = set()
     for m in path_part.finditer(path):
         res += escape(path[pos : m.start()])
         pos = m.end()
         if m[1]:
-            res += f"(?P<{m[1]}>[^/]*)"
+            res += f"(?P={m[1]})" if m[1] in vars else f"(?P<{m[1]}>[^/]*)"
+            vars.add(m[1])
         elif m[0] == "*":
             res += "([^/]*)"
         else:
-- 
2.43.0


From 3c6721a6bbd4bc2e432ce9478de730daea91871b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:58 +0000
Subject: [PATCH 092/190] fix: Do not treat braces in config references as
 variables

---
 python/moz/l10n/paths/config.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index d76ac04..00054d0 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -50,9 +50,9 @@ These are applied by `L10nConfigPaths` unless overridden via `locale_map`.
 """
 
 
-def path_regex(path: str) -> Pattern[str]:
+def path_regex(path: str, *, has_vars: bool = True) -> Pattern[str]:
     """
-    Captures * groups as indexed and {vars} as named.
+    Captures * groups as indexed and, with `has_vars`, {vars} as named.
     Expects `path` to use `/` as separator.
     """
     if path.startswith("{l10n_base}/"):
@@ -60,10 +60,10 @@ def path_regex(path: str) -> Pattern[str]:
     res = ""
     pos = 0
     vars: set[str] = set()
-    for m in path_part.finditer(path):
+    for m in (path_part if has_vars else path_stars).finditer(path):
         res += escape(path[pos : m.start()])
         pos = m.end()
-        if m[1]:
+        if has_vars and m[1]:
             res += f"(?P={m[1]})" if m[1] in vars else f"(?P<{m[1]}>[^/]*)"
             vars.add(m[1])
         elif m[0] == "*":
@@ -154,7 +154,12 @@ class L10nConfigPaths:
             target: str = path["l10n"]  # Note: not normalised, so sep=="/"
             if env_map:
                 target = target.format_map(env_map)
-            self._templates.append((path_stars.sub("{}", ref), path_regex(target)))
+            self._templates.append(
+                (
+                    path_stars.sub("{}", ref.replace("{", "{{").replace("}", "}}")),
+                    path_regex(target),
+                )
+            )
             locales: list[str] | None = path.get("locales", None)
             if "*" in ref:
                 # Literal parts of the root directory are not a glob pattern
@@ -165,7 +170,7 @@ class L10nConfigPaths:
                     raise ValueError(
                         f"Wildcard mismatch between reference & l10n: {path}"
                     )
-                ref_re = path_regex(ref.replace(sep, "/"))
+                ref_re = path_regex(ref.replace(sep, "/"), has_vars=False)
                 *tgt_parts, tgt_end = path_stars.split(target)
 
                 def get_target(ref_file: str) -> str:
-- 
2.43.0


From ccdc821c5cca1a605b9c31a4ab1f47405b3a131b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:01 +0000
Subject: [PATCH 093/190] fix: Tell wildcards and variables apart by position
 when finding a reference

---
 python/moz/l10n/paths/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 00054d0..a94f733 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -421,11 +421,11 @@ class L10nConfigPaths:
             match = pattern.fullmatch(rel_target)
             if match:
                 vars = match.groupdict()
-                var_spans = {match.span(name) for name in vars}
+                var_idx = set(pattern.groupindex.values())
                 star_values = [
                     group
                     for idx, group in enumerate(match.groups())
-                    if match.span(idx + 1) not in var_spans
+                    if idx + 1 not in var_idx
                 ]
                 ref_path = normpath(ref.format(*star_values))
                 if ref_path in self._path_data:
-- 
2.43.0


From 9945569fc61c810b5eb1b9fae4eaf56137dcd27c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:16:04 +0000
Subject: [PATCH 094/190] fix: Find references for l10n paths that are
 templates or not normalised

---
 python/moz/l10n/paths/config.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index a94f733..f19e3e8 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -50,13 +50,17 @@ These are applied by `L10nConfigPaths` unless overridden via `locale_map`.
 """
 
 
+def target_path(target: str) -> str:
+    """Normalise the path of a target relative to its base."""
+    target = normpath(target.removeprefix("{l10n_base}/")).replace(sep, "/")
+    return target[:-1] if target.endswith(".pot") else target
+
+
 def path_regex(path: str, *, has_vars: bool = True) -> Pattern[str]:
     """
     Captures * groups as indexed and, with `has_vars`, {vars} as named.
     Expects `path` to use `/` as separator.
     """
-    if path.startswith("{l10n_base}/"):
-        path = path[12:]
     res = ""
     pos = 0
     vars: set[str] = set()
@@ -157,7 +161,7 @@ class L10nConfigPaths:
             self._templates.append(
                 (
                     path_stars.sub("{}", ref.replace("{", "{{").replace("}", "}}")),
-                    path_regex(target),
+                    path_regex(target_path(target)),
                 )
             )
             locales: list[str] | None = path.get("locales", None)
-- 
2.43.0


From 7601349ba3fb30e23d3993d4e26594d20f31e212 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:40 +0000
Subject: [PATCH 095/190] fix: Find the targets of .po references in configs

---
 python/moz/l10n/paths/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index f19e3e8..b830d4b 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -348,7 +348,7 @@ class L10nConfigPaths:
         if locale is not None and self._locales and locale not in self._locales:
             return None, set()
         norm_ref_path = normpath(join(self._ref_root, ref_path))
-        if norm_ref_path.endswith(".po"):
+        if norm_ref_path.endswith(".po") and norm_ref_path not in self._path_data:
             norm_ref_path += "t"
         pd = self._path_data.get(norm_ref_path, None)
         target = None
-- 
2.43.0


From 697e6b8435d29db4060b5622063d33c705b2d1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:42 +0000
Subject: [PATCH 096/190] fix: Apply force_paths to all matching paths of a
 config, including its includes

---
 python/moz/l10n/paths/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index b830d4b..e8fba9b 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -194,7 +194,6 @@ class L10nConfigPaths:
                     if fp_match:
                         for path in fp_match:
                             self._path_data[path][get_target(path)] = locales
-                        fp -= fp_match
             else:
                 self._path_data[ref][target] = locales
 
@@ -213,6 +212,7 @@ class L10nConfigPaths:
                         L10nConfigPaths(
                             incl_path,
                             cfg_load=cfg_load,
+                            force_paths=force_paths,
                             locale_map=locale_map,
                             _seen=_seen,
                         )
-- 
2.43.0


From 7076a24483f5bfcf39648f7f1464201985f7e75a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:45 +0000
Subject: [PATCH 097/190] fix: Do not repeat a relative base in config target
 paths

---
 python/moz/l10n/paths/config.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index e8fba9b..1c3b668 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -20,7 +20,7 @@ from collections.abc import Callable, Iterator
 from glob import escape as glob_escape
 from glob import glob
 from os import sep
-from os.path import dirname, isfile, join, normpath, relpath
+from os.path import dirname, isabs, isfile, join, normpath, relpath
 from re import Pattern, compile, escape
 from typing import Any, cast
 
@@ -314,7 +314,7 @@ class L10nConfigPaths:
         self, format_map: dict[str, str] | None
     ) -> Iterator[tuple[tuple[str, str], list[str] | None]]:
         lc_map = PartialMap(format_map or ())
-        lc_map["l10n_base"] = self._base
+        lc_map["l10n_base"] = self._base if isabs(self._base) else "."
         for ref, pd in self._path_data.items():
             for target, locales in pd.items():
                 target = target.format_map(lc_map)
@@ -390,7 +390,7 @@ class L10nConfigPaths:
             return None, set()
 
         fmt_map = PartialMap(format_map or ())
-        fmt_map["l10n_base"] = self._base
+        fmt_map["l10n_base"] = self._base if isabs(self._base) else "."
         path = target.format_map(fmt_map)
         if path.endswith(".pot"):
             path = path[:-1]
-- 
2.43.0


From f2d0050064a5b60ebb9185b7496dec116ddaff17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:47 +0000
Subject: [PATCH 098/190] fix: Look up relative paths in included configs
 relative to their root

---
 python/moz/l10n/paths/config.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 1c3b668..3dad930 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -382,8 +382,14 @@ class L10nConfigPaths:
 
         if target is None or locales is None:
             for incl in self._includes:
+                # Relative paths are relative to the root of each config
+                incl_ref_path = (
+                    norm_ref_path
+                    if isabs(norm_ref_path)
+                    else relpath(norm_ref_path, incl._ref_root)
+                )
                 target_ = incl.target(
-                    norm_ref_path, format_map=format_map, locale=locale
+                    incl_ref_path, format_map=format_map, locale=locale
                 )
                 if target_[0] is not None:
                     return target_
@@ -439,7 +445,9 @@ class L10nConfigPaths:
                     if pot_path in self._path_data:
                         return pot_path, vars
         for incl in self._includes:
-            res = incl.find_reference(abs_target)
+            res = incl.find_reference(
+                abs_target if isabs(abs_target) else relpath(abs_target, incl._base)
+            )
             if res is not None:
                 return res
         return None
-- 
2.43.0


From c746742468038f768693e3968902fb5f23880124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:22:48 +0000
Subject: [PATCH 099/190] fix: Do not include a config in itself

---
 python/moz/l10n/paths/config.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 3dad930..eab41e2 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -200,7 +200,7 @@ class L10nConfigPaths:
         self._includes: list[L10nConfigPaths] = []
         if "includes" in toml:
             if _seen is None:
-                _seen = set()
+                _seen = {normpath(cfg_path)}
             for incl in toml["includes"]:
                 incl_path: str = incl["path"]
                 if env_map:
-- 
2.43.0


From e35698399f6550b977114a9b752b95a2d3393927 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:39 +0000
Subject: [PATCH 100/190] fix: Discover paths in the current directory

---
 python/moz/l10n/paths/discover.py | 16 +++++++++++++---
 1 file changed, 13 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index d40692d..382e080 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -18,7 +18,16 @@ import re
 from collections.abc import Iterable, Iterator
 from itertools import chain
 from os import sep, walk
-from os.path import commonpath, dirname, isdir, join, normpath, relpath, splitext
+from os.path import (
+    abspath,
+    commonpath,
+    dirname,
+    isdir,
+    join,
+    normpath,
+    relpath,
+    splitext,
+)
 from typing import Literal
 
 from moz.l10n.formats import l10n_extensions
@@ -30,7 +39,8 @@ locale_id = re.compile(
 
 
 def _dir_contains(dir: str, path: str) -> bool:
-    return commonpath((dir, path)) == dir
+    dir = abspath(dir)
+    return commonpath((dir, abspath(path))) == dir
 
 
 def _locale_dirname(base: str, locale: str, locale_dir_sep: Literal["-", "_"]) -> str:
@@ -130,7 +140,7 @@ class L10nDiscoverPaths:
             locale_dirs = []
             for dir in dirnames:
                 if dir in ref_dir_scores:
-                    ref_dirs[join(dirpath, dir)] = ref_dir_scores[dir]
+                    ref_dirs[normpath(join(dirpath, dir))] = ref_dir_scores[dir]
                 elif locale_id.fullmatch(dir):
                     locale_dirs.append(dir)
             if locale_dirs:
-- 
2.43.0


From 2b7c39765d6d62deafb344bf3aeacb87cbb12722 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:42 +0000
Subject: [PATCH 101/190] fix: Find the targets of discovered .po references

---
 python/moz/l10n/paths/discover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index 382e080..023ed3a 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -273,7 +273,7 @@ class L10nDiscoverPaths:
         If `locale` is not set, target path will include a `{locale}` variable.
         """
         ref_path = normpath(join(self._ref_root, ref_path))
-        if ref_path.endswith(".po"):
+        if ref_path.endswith(".po") and ref_path not in self.ref_paths:
             ref_path += "t"
         if ref_required and ref_path not in self.ref_paths:
             return None, ()
-- 
2.43.0


From e72e3c0429fc2bd36b78819ecd38db1b1b23f93d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:23:44 +0000
Subject: [PATCH 102/190] fix: Do not walk files of ignored directories

---
 python/moz/l10n/util/walk_files.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/util/walk_files.py b/python/moz/l10n/util/walk_files.py
index 39d6fac..c00c339 100644
--- a/python/moz/l10n/util/walk_files.py
+++ b/python/moz/l10n/util/walk_files.py
@@ -15,7 +15,7 @@
 from __future__ import annotations
 
 from collections.abc import Iterator
-from os import sep, walk
+from os import curdir, pardir, sep, walk
 from os.path import isdir, join, relpath
 
 from gitignorant import Rule, check_match, parse_gitignore_file
@@ -44,6 +44,12 @@ def walk_files(
         except OSError:
             pass
     for dir in (join(root, p) for p in dirs) if dirs else (root,):
+        parts = relpath(dir, start=root).split(sep)
+        if parts[0] not in (curdir, pardir) and any(
+            check_match(ignore, "/".join(parts[: idx + 1]), is_dir=True)
+            for idx in range(len(parts))
+        ):
+            continue
         for dirpath, dirnames, filenames in walk(dir):
             idx = len(dirnames) - 1
             while idx >= 0:
-- 
2.43.0


From 9ce3492bb7400fe68f79ff5cc09247b763418a06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:24:04 +0000
Subject: [PATCH 103/190] fix: Map the paths of a relative reference root to
 their targets

---
 python/moz/l10n/paths/discover.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index 023ed3a..0af5f45 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -220,13 +220,15 @@ class L10nDiscoverPaths:
             self.locale_dir_sep = "-"
 
         self.ref_paths = (
-            list(walk_files(self._ref_root, ignorepath=ignorepath))
+            list(map(normpath, walk_files(self._ref_root, ignorepath=ignorepath)))
             if isdir(self._ref_root)
             else []
         )
         if force_paths:
             self.ref_paths.extend(
-                path for path in force_paths if _dir_contains(self._ref_root, path)
+                normpath(path)
+                for path in force_paths
+                if _dir_contains(self._ref_root, path)
             )
 
     @property
@@ -256,7 +258,7 @@ class L10nDiscoverPaths:
         locale_root = join(self._base(), "{locale}")
         paths: dict[tuple[str, str], list[str] | None] = {}
         for ref_path in self.ref_paths:
-            target = ref_path.replace(self._ref_root, locale_root, 1)
+            target = join(locale_root, relpath(ref_path, self._ref_root))
             if target.endswith(".pot"):
                 target = target[:-1]
             paths[(ref_path, target)] = self.locales
@@ -278,7 +280,7 @@ class L10nDiscoverPaths:
         if ref_required and ref_path not in self.ref_paths:
             return None, ()
         locale_root = join(self._base(), "{locale}")
-        target = ref_path.replace(self._ref_root, locale_root, 1)
+        target = join(locale_root, relpath(ref_path, self._ref_root))
         if target.endswith(".pot"):
             target = target[:-1]
         if locale is None:
-- 
2.43.0


From 1fc33227808481f15eed3430b91a230abe9a7a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:25:32 +0000
Subject: [PATCH 104/190] fix: Do not accept malformed b+ qualifiers as Android
 locales

---
 python/moz/l10n/paths/android_locale.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/android_locale.py b/python/moz/l10n/paths/android_locale.py
index dcf8ebf..021eb0b 100644
--- a/python/moz/l10n/paths/android_locale.py
+++ b/python/moz/l10n/paths/android_locale.py
@@ -47,7 +47,7 @@ def parse_android_locale(alocale: str) -> str | None:
     Examples:
         `iw` -> `he`, `en-rGB` -> `en-GB`, `b+sr+Latn` -> `sr-Latn`
     """
-    if alocale.startswith("b+"):
+    if fullmatch(r"b\+[A-Za-z]{2,8}(?:\+[0-9A-Za-z]{1,8})*", alocale):
         lc, *rest = alocale[2:].split("+")
     else:
         m = fullmatch(r"([a-z]{2,3})(?:-r([A-Z]{2}))?", alocale)
-- 
2.43.0


From 8b02533bdeb9ae236d5512ffed9066786e31f821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:37 +0000
Subject: [PATCH 105/190] fix: Find the targets of .po references in included
 configs

---
 python/moz/l10n/paths/config.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index eab41e2..3dc2ec4 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -348,9 +348,9 @@ class L10nConfigPaths:
         if locale is not None and self._locales and locale not in self._locales:
             return None, set()
         norm_ref_path = normpath(join(self._ref_root, ref_path))
-        if norm_ref_path.endswith(".po") and norm_ref_path not in self._path_data:
-            norm_ref_path += "t"
         pd = self._path_data.get(norm_ref_path, None)
+        if pd is None and norm_ref_path.endswith(".po"):
+            pd = self._path_data.get(norm_ref_path + "t", None)
         target = None
         locales = None
         if pd:
-- 
2.43.0


From 3bdb5d5d8d4dc087204c928dc507cee61d282d10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:29:56 +0000
Subject: [PATCH 106/190] fix: Identify included configs by their absolute
 paths

---
 python/moz/l10n/paths/config.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 3dc2ec4..32669d0 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -20,7 +20,7 @@ from collections.abc import Callable, Iterator
 from glob import escape as glob_escape
 from glob import glob
 from os import sep
-from os.path import dirname, isabs, isfile, join, normpath, relpath
+from os.path import abspath, dirname, isabs, isfile, join, normpath, relpath
 from re import Pattern, compile, escape
 from typing import Any, cast
 
@@ -200,14 +200,14 @@ class L10nConfigPaths:
         self._includes: list[L10nConfigPaths] = []
         if "includes" in toml:
             if _seen is None:
-                _seen = {normpath(cfg_path)}
+                _seen = {abspath(cfg_path)}
             for incl in toml["includes"]:
                 incl_path: str = incl["path"]
                 if env_map:
                     incl_path = incl_path.format_map(env_map)
                 incl_path = normpath(join(self._ref_root, incl_path))
-                if incl_path not in _seen:
-                    _seen.add(incl_path)
+                if abspath(incl_path) not in _seen:
+                    _seen.add(abspath(incl_path))
                     self._includes.append(
                         L10nConfigPaths(
                             incl_path,
-- 
2.43.0


From 98034e7ceeb33d7131e4e895d6bed5962dbb60b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:05 +0000
Subject: [PATCH 107/190] fix: Use the default of get_pattern() for missing
 properties

---
 python/moz/l10n/migrate/utils.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/migrate/utils.py b/python/moz/l10n/migrate/utils.py
index 6743bda..519f08e 100644
--- a/python/moz/l10n/migrate/utils.py
+++ b/python/moz/l10n/migrate/utils.py
@@ -130,6 +130,8 @@ def get_pattern(
         msg = entry.value
     elif property in entry.properties:
         msg = entry.properties[property]
+    elif default is not None:
+        return default
     else:
         raise StopIteration
 
-- 
2.43.0


From 64fec8858f5ff2c9ed4b97ec2803e3b171893cda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:08 +0000
Subject: [PATCH 108/190] fix: Only insert migrated entries in sections that
 their ids name

---
 python/moz/l10n/migrate/utils.py | 25 ++++++++++---------------
 1 file changed, 10 insertions(+), 15 deletions(-)

diff --git a/python/moz/l10n/migrate/utils.py b/python/moz/l10n/migrate/utils.py
index 519f08e..d732263 100644
--- a/python/moz/l10n/migrate/utils.py
+++ b/python/moz/l10n/migrate/utils.py
@@ -159,9 +159,9 @@ def insert_entry_after(
     """
     Insert `entry` in `res` after the last entry
     with an `.id` matching one of `src_ids`,
-    or if none such are found,
-    at the end of the last section matching any of `ids`.
+    or if none such are found, at the end of the last section.
 
+    Only sections matching the start of `entry.id` are considered.
     Note that `entry.id` is expected to include its section id,
     which will be dropped before insertion.
 
@@ -170,26 +170,21 @@ def insert_entry_after(
     id_set = {id if isinstance(id, tuple) else (id,) for id in src_ids}
     last_section: Section[M] | None = None
     for section in reversed(res.sections):
-        if section.id:
-            sid_len = len(section.id)
-            eid_set = {id[sid_len:] for id in id_set if section.id == id[:sid_len]}
-            if not eid_set:
-                continue
-        else:
-            sid_len = 0
-            eid_set = id_set
+        sid_len = len(section.id)
+        if section.id != entry.id[:sid_len] or len(entry.id) == sid_len:
+            continue
+        eid_set = {id[sid_len:] for id in id_set if section.id == id[:sid_len]}
         for e_rev_idx, e in enumerate(reversed(section.entries)):
             if isinstance(e, Entry) and e.id in eid_set:
-                if sid_len:
-                    entry.id = entry.id[sid_len:]
+                entry.id = entry.id[sid_len:]
                 section.entries.insert(len(section.entries) - e_rev_idx, entry)
                 return
-        last_section = section
+        if last_section is None:
+            last_section = section
     if last_section is None:
         raise StopIteration
     else:
-        if last_section.id:
-            entry.id = entry.id[len(last_section.id) :]
+        entry.id = entry.id[len(last_section.id) :]
         last_section.entries.append(entry)
 
 
-- 
2.43.0


From 3055242d487a294a4c0225a3ee2bec3f04de84c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:32 +0000
Subject: [PATCH 109/190] fix: Accept string results of migration functions

---
 python/moz/l10n/migrate/__init__.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 66bdcd5..452aa60 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -409,6 +409,8 @@ def _create_entry(
         new_entry = dataclasses.replace(src_entry, id=ctx.target_id)
     elif isinstance(src_entry, (PatternMessage, SelectMessage)):
         new_entry = Entry(ctx.target_id, src_entry)
+    elif isinstance(src_entry, str):
+        new_entry = Entry(ctx.target_id, PatternMessage([src_entry]))
     else:
         raise ValueError(f"Unsupported entry type {type(src_entry)}: {ctx}")
 
-- 
2.43.0


From ef2b6438063a5c12bda350ec58bf92ac6b30cafa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:35 +0000
Subject: [PATCH 110/190] fix: Skip migrated entries for which a locale has no
 section

---
 python/moz/l10n/migrate/__init__.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 452aa60..5367446 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -414,5 +414,9 @@ def _create_entry(
     else:
         raise ValueError(f"Unsupported entry type {type(src_entry)}: {ctx}")
 
-    insert_entry_after(res, new_entry, *src_ids, *ctx._prev_ids)
+    try:
+        insert_entry_after(res, new_entry, *src_ids, *ctx._prev_ids)
+    except StopIteration:
+        log.warning(f"Insert position not found: {ctx}")
+        return None
     return new_entry
-- 
2.43.0


From de56f4090660fcbb35e0cff1cbc7d85a99a9d208 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:37 +0000
Subject: [PATCH 111/190] fix: Keep migrated files that can not be serialized

---
 python/moz/l10n/migrate/__init__.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 5367446..085c7a3 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -154,9 +154,10 @@ class Migrate:
                     log.info(f"Adding {entries} to {ref_path} for locale {locale}")
                     tgt_path = self.paths.format_target_path(tgt_fmt, locale)
                     if not dry_run:
+                        # Serialize first, to keep the current file on errors
+                        lines = list(serialize_resource(res))
                         with open(tgt_path, "w", encoding="utf-8") as file:
-                            for line in serialize_resource(res):
-                                file.write(line)
+                            file.writelines(lines)
                     all_changes[tgt_path] = changed
         return all_changes
 
-- 
2.43.0


From 4aa6cf4463547e9b623fe1cb737973a1b595392c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:40 +0000
Subject: [PATCH 112/190] fix: Create the directories of new migrated files

---
 python/moz/l10n/migrate/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 085c7a3..ffdaf4f 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -17,7 +17,8 @@ from __future__ import annotations
 import dataclasses
 from copy import deepcopy
 from logging import getLogger
-from os.path import isdir, isfile, join
+from os import makedirs
+from os.path import dirname, isdir, isfile, join
 from typing import Any, Callable, Union
 
 from moz.l10n.formats import Format, detect_format
@@ -156,6 +157,7 @@ class Migrate:
                     if not dry_run:
                         # Serialize first, to keep the current file on errors
                         lines = list(serialize_resource(res))
+                        makedirs(dirname(tgt_path), exist_ok=True)
                         with open(tgt_path, "w", encoding="utf-8") as file:
                             file.writelines(lines)
                     all_changes[tgt_path] = changed
-- 
2.43.0


From 64a7b2accc3dda0f2482da3a6cb45369fbb0dbbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:42 +0000
Subject: [PATCH 113/190] fix: Do not overwrite files that a migration can not
 parse

---
 python/moz/l10n/migrate/__init__.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index ffdaf4f..9513de6 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -18,7 +18,7 @@ import dataclasses
 from copy import deepcopy
 from logging import getLogger
 from os import makedirs
-from os.path import dirname, isdir, isfile, join
+from os.path import dirname, exists, isdir, isfile, join
 from typing import Any, Callable, Union
 
 from moz.l10n.formats import Format, detect_format
@@ -131,6 +131,9 @@ class Migrate:
                 ctx = MigrationContext(self.paths, ref_path, locale, self.parse_options)
                 res = ctx.get_resource(ref_path)
                 if res is None:
+                    if exists(self.paths.format_target_path(tgt_fmt, locale)):
+                        log.warning(f"Failed to parse {ref_path} for locale {locale}")
+                        continue
                     if src_res is None:
                         src_res = _get_empty_resource(
                             join(self.paths.ref_root, ref_path)
-- 
2.43.0


From d58559f67c800fc414647ef9d7d0ff3cde0b7308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:45 +0000
Subject: [PATCH 114/190] fix: Copy all variants of a property in migrations

---
 python/moz/l10n/migrate/__init__.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 9513de6..2588490 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -209,15 +209,19 @@ def copy(
         else:
             res_ = res
 
-        if property is None and variant is None:
+        if variant is None:
             entry = get_entry(res_, *id)
-            if entry:
-                entry = deepcopy(entry)
-                _replace_placeholders(entry, replace)
-                return (entry.value if value_only else entry, {id})
-            else:
-                log.debug(f"Copy-from entry not found: {ctx.pretty_id(id)}")
+            if entry is None or (property and property not in entry.properties):
+                pp = f" property {property}" if property else ""
+                log.debug(f"Copy-from entry{pp} not found: {ctx.pretty_id(id)}")
                 return None
+            if property:
+                msg = deepcopy(entry.properties[property])
+                _replace_placeholders(msg, replace)
+                return msg, {id}
+            entry = deepcopy(entry)
+            _replace_placeholders(entry, replace)
+            return (entry.value if value_only else entry, {id})
 
         try:
             pattern = get_pattern(res_, *id, property=property, variant=variant)
-- 
2.43.0


From 880113acfa8973ec94fb2ec24d09e2bf048cb0bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:06 +0000
Subject: [PATCH 115/190] fix: Use the default of get_pattern() for messages
 with no fallback

---
 python/moz/l10n/migrate/utils.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/migrate/utils.py b/python/moz/l10n/migrate/utils.py
index d732263..6ec2f4a 100644
--- a/python/moz/l10n/migrate/utils.py
+++ b/python/moz/l10n/migrate/utils.py
@@ -142,11 +142,12 @@ def get_pattern(
             variant = (variant,)
         if variant in msg.variants:
             return msg.variants[variant]
-        return next(
-            pattern
-            for keys, pattern in msg.variants.items()
-            if all(isinstance(key, CatchallKey) for key in keys)
-        )
+        for keys, pattern in msg.variants.items():
+            if all(isinstance(key, CatchallKey) for key in keys):
+                return pattern
+        if default is not None:
+            return default
+        raise StopIteration
 
     raise ValueError(f"Value of {id} entry is not a Message")
 
-- 
2.43.0


From 8ee708aa31494d1392d085ec0225ce949b0757d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:04 +0000
Subject: [PATCH 116/190] fix: Keep the metadata of resources and sections in
 builds

---
 python/moz/l10n/bin/build.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/bin/build.py b/python/moz/l10n/bin/build.py
index 8e76184..5ade11a 100644
--- a/python/moz/l10n/bin/build.py
+++ b/python/moz/l10n/bin/build.py
@@ -167,10 +167,12 @@ def write_target_file(
             for entry in section.entries
             if isinstance(entry, Entry)
         }
+        section_meta = {section.id: section.meta for section in l10n_res.sections}
         l10n_res.sections = []
     else:
-        l10n_res = Resource(source_res.format, [])
+        l10n_res = Resource(source_res.format, [], meta=source_res.meta)
         l10n_map = {}
+        section_meta = {}
     # Fluent uses per-message fallback at runtime, allowing resources to be incomplete.
     is_fluent = source_res.format == Format.fluent
     msg_delta = 0
@@ -221,7 +223,8 @@ def write_target_file(
             for entry_ in section.entries
             if (entry := get_entry(section.id, entry_)) is not None
         ]
-        l10n_res.sections.append(Section(section.id, tgt_entries))
+        meta = section_meta.get(section.id, section.meta)
+        l10n_res.sections.append(Section(section.id, tgt_entries, meta=meta))
 
     msg = f"merge {name}"
     log.info(f"{msg} ({msg_delta:+d})" if msg_delta != 0 else msg)
-- 
2.43.0


From d6437d4ddcf4955679c84ba1a6e09b8023a301d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:06 +0000
Subject: [PATCH 117/190] fix: Allow build-file targets in the current
 directory

---
 python/moz/l10n/bin/build_file.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/bin/build_file.py b/python/moz/l10n/bin/build_file.py
index 48601f9..d7a7435 100644
--- a/python/moz/l10n/bin/build_file.py
+++ b/python/moz/l10n/bin/build_file.py
@@ -64,7 +64,7 @@ def cli(
             source_res = parse_resource(source)
         except UnsupportedFormat:
             source_res = None
-        makedirs(dirname(target), exist_ok=True)
+        makedirs(dirname(target) or ".", exist_ok=True)
         total_count = 0
         missing_ids: list[str | list[str]] = []
         if source_res is None:
-- 
2.43.0


From b6d3f848bfd6d7c6c59155cfdaafb4f0e249fe15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:53:08 +0000
Subject: [PATCH 118/190] fix: Do not copy files over themselves in builds

---
 python/moz/l10n/bin/build.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/bin/build.py b/python/moz/l10n/bin/build.py
index 5ade11a..2dedef7 100644
--- a/python/moz/l10n/bin/build.py
+++ b/python/moz/l10n/bin/build.py
@@ -18,7 +18,7 @@ import json
 import logging
 from collections import defaultdict
 from os import makedirs
-from os.path import dirname, exists, join, relpath
+from os.path import dirname, exists, join, relpath, samefile
 from shutil import copyfile
 from typing import Any
 
@@ -130,7 +130,7 @@ def cli(
                     }
             else:
                 from_path = l10n_path if exists(l10n_path) else source_path
-                if from_path != tgt_path:
+                if not exists(tgt_path) or not samefile(from_path, tgt_path):
                     copy = "copy" if from_path == l10n_path else "copy-src"
                     log.info(f"{copy} {rel_path}")
                     copyfile(from_path, tgt_path)
-- 
2.43.0


From 96116824015da5879be0bd9bf94729cff1045cd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:58:52 +0000
Subject: [PATCH 119/190] fix: Support relative source directories in
 comparisons

---
 python/moz/l10n/bin/compare.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/bin/compare.py b/python/moz/l10n/bin/compare.py
index 32fa19c..cbc4bdc 100644
--- a/python/moz/l10n/bin/compare.py
+++ b/python/moz/l10n/bin/compare.py
@@ -116,7 +116,7 @@ def cli(
         source_paths: L10nConfigPaths | L10nDiscoverPaths = (
             L10nConfigPaths(source)
             if source.endswith(".toml")
-            else L10nDiscoverPaths(source, source)
+            else L10nDiscoverPaths(source, ref_root=".")
         )
         path0 = abspath(paths[0])
         locale0 = basename(path0)
-- 
2.43.0


From b094801ed46fd4ef62ed70037d7b0f4fb844c048 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:54 +0000
Subject: [PATCH 120/190] fix: Ignore directories matching glob expressions

---
 python/moz/l10n/bin/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/bin/utils.py b/python/moz/l10n/bin/utils.py
index a5df375..e268947 100644
--- a/python/moz/l10n/bin/utils.py
+++ b/python/moz/l10n/bin/utils.py
@@ -76,7 +76,13 @@ def handle_paths(
 
     elif file_paths:
         root_dir = os.getcwd()
-        path_iter = (path for fp in file_paths for path in glob(fp, recursive=True))
+        # A ** will also match directories
+        path_iter = (
+            path
+            for fp in file_paths
+            for path in glob(fp, recursive=True)
+            if path == fp or not os.path.isdir(path)
+        )
 
     else:
         log.error(LOG_ERROR_CONFIG_OR_PATHS)
-- 
2.43.0


From 04c4ab5793bd3d5dd89d11b1b5f79954f3130932 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:22 +0000
Subject: [PATCH 121/190] fix: Do not include an escape's backslash in Android
 placeholders

---
 python/moz/l10n/formats/android/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 14f68ff..476efe8 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -467,7 +467,7 @@ inline_re = compile(
     f"({unicode_re})|"
     r"\\(.)|"
     r"(<[^%>]+>)|"
-    r"(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?.))"
+    r"(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?[^\\\n]))"
 )
 block_tag_re = compile(r"<(div|h[123456r]|p|d[dt]|li|/?[dou]l)\b")
 break_tag_re = compile(r"<[bh]r/?>")
-- 
2.43.0


From 8178c03496da976e3c74845914c2d9bb8b1261d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:49:27 +0000
Subject: [PATCH 122/190] fix: JavaScript normalizeMessage() fails with
 variables named as Object.prototype properties

---
 js/src/model-utils.ts | 19 ++++++-------------
 1 file changed, 6 insertions(+), 13 deletions(-)

diff --git a/js/src/model-utils.ts b/js/src/model-utils.ts
index 117bae6..e375509 100644
--- a/js/src/model-utils.ts
+++ b/js/src/model-utils.ts
@@ -97,7 +97,7 @@ function normalizeDeclarations(
   msg: PatternMessage | SelectMessage,
   varRefs: Set<string>
 ): Record<string, Expression> | null {
-  const declRefs: Record<string, Set<string>> = {}
+  const declRefs = new Map<string, Set<string>>()
   for (const [name, decl] of Object.entries(msg.decl)) {
     const refs = new Set<string>()
     if (typeof decl.$ === 'string' && decl.$ !== name) refs.add(decl.$)
@@ -106,13 +106,13 @@ function normalizeDeclarations(
         if (typeof optVal !== 'string') refs.add(optVal.$)
       }
     }
-    if (refs.size) declRefs[name] = refs
+    if (refs.size) declRefs.set(name, refs)
   }
 
   function* varDependencies(name: string): Iterable<string> {
-    const drs = declRefs[name]
+    const drs = declRefs.get(name)
     if (drs) {
-      delete declRefs[name]
+      declRefs.delete(name)
       for (const dr of drs) {
         yield dr
         yield* varDependencies(dr)
@@ -124,15 +124,8 @@ function normalizeDeclarations(
     for (const dr of varDependencies(ref)) varRefs.add(dr)
   }
 
-  let hasDecl = false
-  const decl: Record<string, Expression> = {}
-  for (const [name, exp] of Object.entries(msg.decl)) {
-    if (varRefs.has(name)) {
-      decl[name] = structuredClone(exp)
-      hasDecl = true
-    }
-  }
-  return hasDecl ? decl : null
+  const decl = Object.entries(msg.decl).filter(([name]) => varRefs.has(name))
+  return decl.length ? structuredClone(Object.fromEntries(decl)) : null
 }
 
 /**
-- 
2.43.0


From 97690d028b5c58723967eeb91dd3dfcbb98f0430 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:38 +0000
Subject: [PATCH 123/190] fix: JavaScript xliffParsePattern() does not consider
 %F a number

---
 js/src/xliff-parse.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/js/src/xliff-parse.ts b/js/src/xliff-parse.ts
index a4ef3c2..e0427c7 100644
--- a/js/src/xliff-parse.ts
+++ b/js/src/xliff-parse.ts
@@ -82,6 +82,7 @@ function* parseElement(
           case 'e':
           case 'E':
           case 'f':
+          case 'F':
           case 'g':
           case 'G':
             yield { $: `num${n}`, fn: 'number', attr }
-- 
2.43.0


From cd0c8c0af3b18d6ee0ac3f2df31e3318b6ac2e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:55:51 +0000
Subject: [PATCH 124/190] fix: JavaScript xliffParsePattern() does not
 recognise printf length modifiers q, z, t and j

---
 js/src/xliff-parse.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/xliff-parse.ts b/js/src/xliff-parse.ts
index e0427c7..1830e2a 100644
--- a/js/src/xliff-parse.ts
+++ b/js/src/xliff-parse.ts
@@ -35,7 +35,7 @@ export function xliffParsePattern(
 
 // # https://developer.apple.com/library/archive/documentation/Cocoa/Conceptual/Strings/Articles/formatSpecifiers.html
 const printf =
-  /%([1-9]\$)?[-#+ 0,]?[0-9.]*(?:(?:hh?|ll?|qztj)[douxX]|L[aAeEfFgG]|[@%aAcCdDeEfFgGoOspSuUxX])/g
+  /%([1-9]\$)?[-#+ 0,]?[0-9.]*(?:(?:hh?|ll?|[qztj])[douxX]|L[aAeEfFgG]|[@%aAcCdDeEfFgGoOspSuUxX])/g
 
 function* parseElement(
   el: Element,
-- 
2.43.0


From 6970b64ed162598b16052829539583726356f995 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:03 +0000
Subject: [PATCH 125/190] fix: JavaScript XML serialization does not escape
 carriage returns

---
 js/src/xml-utils.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/js/src/xml-utils.ts b/js/src/xml-utils.ts
index f247684..f0c2d37 100644
--- a/js/src/xml-utils.ts
+++ b/js/src/xml-utils.ts
@@ -24,7 +24,10 @@ export function serialize(root: Element) {
   const name = root.tagName
   const str = new XMLSerializer().serializeToString(root)
   if (str.startsWith(`<${name}`) && str.endsWith(`</${name}>`)) {
-    return str.replace(/^<.*?>/, '').slice(0, -1 * (name.length + 3))
+    return str
+      .replace(/^<.*?>/, '')
+      .slice(0, -1 * (name.length + 3))
+      .replaceAll('\r', '&#xD;') // Would be read as a newline
   } else if (new RegExp(`^<${name}[^<>]*/>$`).test(str)) {
     return ''
   } else {
-- 
2.43.0


From 1b7265833e85811fb29ac1ed9d60f5d151b7cfd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:07 +0000
Subject: [PATCH 126/190] fix: JavaScript androidSerializePattern() does not
 escape all control characters

---
 js/src/android-serialize.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/android-serialize.ts b/js/src/android-serialize.ts
index 5699f3e..fc2f29d 100644
--- a/js/src/android-serialize.ts
+++ b/js/src/android-serialize.ts
@@ -121,7 +121,7 @@ const escape = (src: string) =>
     .replaceAll('"', '\\"')
     // Control codes that are not valid in XML, and nonstandard whitespace
     // eslint-disable-next-line no-control-regex
-    .replace(/[\x00-\x19\x7F-\x9F]|[^\S ]|(?<= ) /g, escapeChar)
+    .replace(/[\x00-\x1F\x7F-\x9F]|[^\S ]|(?<= ) /g, escapeChar)
 
 function asTextContent(
   part: Expression,
-- 
2.43.0


From 9dd65a84152da98d28751c1557f576781836c760 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:24 +0000
Subject: [PATCH 127/190] fix: JavaScript androidSerializePattern() rejects
 xliff:g literals

---
 js/src/android-serialize.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/android-serialize.ts b/js/src/android-serialize.ts
index fc2f29d..9560b38 100644
--- a/js/src/android-serialize.ts
+++ b/js/src/android-serialize.ts
@@ -142,7 +142,7 @@ function asTextContent(
     return key
   }
   if (typeof part.attr?.source === 'string') return part.attr.source
-  if (part.fn && part.fn !== 'html') {
+  if (part.fn && part.fn !== 'html' && part.fn !== 'xliff:g') {
     onError(new SerializeError(`android: Unsupported function ${part.fn}`))
   }
   return part.$ ?? escape(part._ ?? '')
-- 
2.43.0


From febc2c47fadbf3ad18747ca72646eaa5b5b6822d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:44 +0000
Subject: [PATCH 128/190] fix: JavaScript androidParsePattern() takes any
 string starting or ending with a resource reference for one

---
 js/src/android-parse.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/android-parse.ts b/js/src/android-parse.ts
index 2181dd0..1fab40f 100644
--- a/js/src/android-parse.ts
+++ b/js/src/android-parse.ts
@@ -21,7 +21,7 @@ import {
   type Pattern
 } from './model.ts'
 
-export const resoureRef = /^@(?:\w+:)?\w+\/\w+|\?(?:\w+:)?(\w+\/)?\w+$/
+export const resoureRef = /^(?:@(?:\w+:)?\w+\/\w+|\?(?:\w+:)?(?:\w+\/)?\w+)$/
 
 const _xmlEntities = new Set(['amp', 'lt', 'gt', 'apos', 'quot'])
 let _xmlEntityKey = Math.floor(Math.random() * 1e9)
-- 
2.43.0


From 8f944d5193539f1eefde19eafca0f7eeb4c61054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:59:43 +0000
Subject: [PATCH 129/190] fix: JavaScript androidSerializePattern() requires
 translate=no for xliff:g

---
 js/src/android-serialize.ts | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/js/src/android-serialize.ts b/js/src/android-serialize.ts
index 9560b38..202177b 100644
--- a/js/src/android-serialize.ts
+++ b/js/src/android-serialize.ts
@@ -142,7 +142,8 @@ function asTextContent(
     return key
   }
   if (typeof part.attr?.source === 'string') return part.attr.source
-  if (part.fn && part.fn !== 'html' && part.fn !== 'xliff:g') {
+  const isXliffG = part.fn === 'xliff:g' && part.attr?.translate === 'no'
+  if (part.fn && part.fn !== 'html' && !isXliffG) {
     onError(new SerializeError(`android: Unsupported function ${part.fn}`))
   }
   return part.$ ?? escape(part._ ?? '')
-- 
2.43.0


From c881e4366748282519fbd7012239325f67b40ce7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:03 +0000
Subject: [PATCH 130/190] fix: JavaScript androidParsePattern() leaves escapes
 in tags

---
 js/src/android-parse.ts | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/js/src/android-parse.ts b/js/src/android-parse.ts
index 1fab40f..3905658 100644
--- a/js/src/android-parse.ts
+++ b/js/src/android-parse.ts
@@ -163,6 +163,17 @@ function* parseQuotes(
   }
 }
 
+const unescape = (src: string) =>
+  src.replace(/\\u([0-9A-Fa-f]{4})|\\(.)/g, (_, code, ch) =>
+    code
+      ? String.fromCharCode(parseInt(code, 16))
+      : ch === 'n'
+        ? '\n'
+        : ch === 't'
+          ? '\t'
+          : ch
+  )
+
 const _inline =
   // 1:esc-unicode     2:esc-char       4:printf                         5:printf-conversion
   //                         3:esc-elem                                            6:xml-entity
@@ -190,13 +201,10 @@ function* parseInline(
         }
         atBreak &&= false
         pos = m.index + m[0].length
-        if (m[1]) {
-          buffer += String.fromCharCode(parseInt(m[1], 16))
-        } else if (m[2]) {
-          const ch = m[2]
-          buffer += ch === 'n' ? '\n' : ch === 't' ? '\t' : ch
+        if (m[1] || m[2]) {
+          buffer += unescape(m[0])
         } else {
-          const tag = m[3]
+          const tag = m[3] && unescape(m[3])
           if (buffer) {
             if (tag && _blocktag.test(tag) && buffer.endsWith(' ')) {
               yield buffer.slice(0, -1) + '\n'
-- 
2.43.0


From 6e9048037bbd2328695e2cda5287104363c45793 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:14 +0000
Subject: [PATCH 131/190] fix: JavaScript androidParsePattern() leaves escapes
 in protected literals

---
 js/src/android-parse.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/android-parse.ts b/js/src/android-parse.ts
index 3905658..1d4296c 100644
--- a/js/src/android-parse.ts
+++ b/js/src/android-parse.ts
@@ -109,7 +109,7 @@ function* flattenElements(
               attr.source = part
               expr = { $: varName(part), attr }
             } else {
-              expr = { _: part, attr }
+              expr = { _: unescape(part), attr }
             }
             if (opt) {
               expr.fn = 'xliff:g'
-- 
2.43.0


From 3a932cf05201f28c4b77a7951481bbd7061d1370 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:29 +0000
Subject: [PATCH 132/190] fix: JavaScript androidParsePattern() ignores double
 quotes after an escaped backslash

---
 js/src/android-parse.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/android-parse.ts b/js/src/android-parse.ts
index 1d4296c..9862faa 100644
--- a/js/src/android-parse.ts
+++ b/js/src/android-parse.ts
@@ -142,7 +142,7 @@ function* parseQuotes(
   for (const part of pattern) {
     if (typeof part === 'string') {
       let pos = 0
-      for (const m of part.matchAll(/(?<!\\)"/g)) {
+      for (const m of part.matchAll(/(?<=(?<!\\)(?:\\\\)*)"/g)) {
         if (pos === 0 && /<.+>/.test(part)) {
           // Let's presume that double quotes near html-ish contents are intentional.
           break
-- 
2.43.0


From 35da984fb6b9a2ce83e1a48b1a396826061b94f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:54 +0000
Subject: [PATCH 133/190] fix: JavaScript androidParsePattern() includes an
 escape's backslash in placeholders

---
 js/src/android-parse.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/android-parse.ts b/js/src/android-parse.ts
index 9862faa..460f918 100644
--- a/js/src/android-parse.ts
+++ b/js/src/android-parse.ts
@@ -177,7 +177,7 @@ const unescape = (src: string) =>
 const _inline =
   // 1:esc-unicode     2:esc-char       4:printf                         5:printf-conversion
   //                         3:esc-elem                                            6:xml-entity
-  /\\u([0-9A-Fa-f]{4})|\\(.)|(<[^%>]+>)|(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?.))|(_entity_\d+_)/g
+  /\\u([0-9A-Fa-f]{4})|\\(.)|(<[^%>]+>)|(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?[^\\\n]))|(_entity_\d+_)/g
 const _blocktag = /^<(div|h[123456r]|p|d[dt]|li|\/?[dou]l)\b/
 const _breaktag = /^<[bh]r\/?>$/
 
-- 
2.43.0


From 4f1d62a7cf42c3f24b4c93b842e84e6f2be75e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:14 +0000
Subject: [PATCH 134/190] fix: JavaScript androidParsePattern() changes %<
 references to a placeholder with no index

---
 js/src/android-parse.ts | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/js/src/android-parse.ts b/js/src/android-parse.ts
index 460f918..62395e1 100644
--- a/js/src/android-parse.ts
+++ b/js/src/android-parse.ts
@@ -262,8 +262,9 @@ function* parseInline(
               // # https://developer.android.com/reference/java/util/Formatter#argument-index
               if (prevVarName) {
                 name = prevVarName
-                const prevIdx = /[1-9]$/.test(name) ? name.at(-1) + '$' : ''
-                attr.source = `%${prevIdx}${m[0].substring(2)}`
+                if (/[1-9]$/.test(name)) {
+                  attr.source = `%${name.at(-1)}$${m[0].substring(2)}`
+                }
               } else {
                 throw new ParseError(`Invalid ${m[0]} placeholder`)
               }
-- 
2.43.0


From 7ec16089ff72b8c9d72320a36796159963c600b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:27 +0000
Subject: [PATCH 135/190] fix: JavaScript androidParsePattern() does not
 normalize the space after a break tag at the end of a string

---
 js/src/android-parse.ts | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/js/src/android-parse.ts b/js/src/android-parse.ts
index 62395e1..ae8433b 100644
--- a/js/src/android-parse.ts
+++ b/js/src/android-parse.ts
@@ -278,7 +278,14 @@ function* parseInline(
           }
         }
       }
-      if (pos < part.length) buffer += part.substring(pos)
+      if (atBreak && pos < part.length) {
+        atBreak = false
+        if (part[pos] === ' ') {
+          buffer += '\n'
+          pos += 1
+        }
+      }
+      buffer += part.substring(pos)
     } else {
       if (buffer) {
         yield buffer
-- 
2.43.0


From 5877ce06457c11801cdbb4e98740f95e4b4f30d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:01:58 +0000
Subject: [PATCH 136/190] fix: JavaScript androidParsePattern() drops hyphens
 from variable names

---
 js/src/android-parse.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/android-parse.ts b/js/src/android-parse.ts
index ae8433b..9ad7428 100644
--- a/js/src/android-parse.ts
+++ b/js/src/android-parse.ts
@@ -303,7 +303,7 @@ const _notNameStart =
 const _notNameChar = new RegExp(
   // eslint-disable-next-line no-misleading-character-class
   _notNameStart.source.slice(1, -1) +
-    '.0-9\\xB7\\u0300-\\u036F\\u203F-\\u2040]',
+    '.0-9\\-\\xB7\\u0300-\\u036F\\u203F-\\u2040]',
   'gu'
 )
 
-- 
2.43.0


From a5c4f2ef55ac5cb9e85bd743576d778256d69fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:02:50 +0000
Subject: [PATCH 137/190] fix: JavaScript mf2SerializeMessage() leaves
 non-number literals unquoted

---
 js/src/mf2-serialize.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/mf2-serialize.ts b/js/src/mf2-serialize.ts
index c2c5770..be73b88 100644
--- a/js/src/mf2-serialize.ts
+++ b/js/src/mf2-serialize.ts
@@ -117,7 +117,7 @@ const name = new RegExp(
   `^[${nameStart}][${nameStart}0-9-.\\xb7\\u0300-\\u036f\\u203f-\\u2040]*$`,
   'u'
 )
-const number = /^-?(?:0|(?:[1-9]\d*))(?:.\d+)?(?:[eE][-+]?\d+)?$/
+const number = /^-?(?:0|(?:[1-9]\d*))(?:\.\d+)?(?:[eE][-+]?\d+)?$/
 function literal(lit: string) {
   return name.test(lit) || number.test(lit)
     ? lit
-- 
2.43.0


From 95d0dd5aa6842af3fc0ce599828c88df4bd9ea56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:02 +0000
Subject: [PATCH 138/190] fix: JavaScript mf2SerializeMessage() does not quote
 variant keys

---
 js/src/mf2-serialize.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/js/src/mf2-serialize.ts b/js/src/mf2-serialize.ts
index be73b88..dc720d9 100644
--- a/js/src/mf2-serialize.ts
+++ b/js/src/mf2-serialize.ts
@@ -36,7 +36,9 @@ export function mf2SerializeMessage(msg: Message) {
   for (const sel of msg.sel) res += ' $' + sel
   for (const { keys, pat } of msg.alt) {
     res += '\n'
-    for (const key of keys) res += typeof key === 'string' ? key + ' ' : '* '
+    for (const key of keys) {
+      res += typeof key === 'string' ? literal(key) + ' ' : '* '
+    }
     res += mf2SerializePattern(pat, true)
   }
   return res
-- 
2.43.0


From 11e6ff8126833c8365d11980815022c73d71f470 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:03:29 +0000
Subject: [PATCH 139/190] fix: JavaScript mf2SerializeMessage() does not quote
 patterns starting with whitespace and a period

---
 js/src/mf2-serialize.ts | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/js/src/mf2-serialize.ts b/js/src/mf2-serialize.ts
index dc720d9..85b1489 100644
--- a/js/src/mf2-serialize.ts
+++ b/js/src/mf2-serialize.ts
@@ -46,7 +46,8 @@ export function mf2SerializeMessage(msg: Message) {
 
 /**
  * @param quoted - If `true`, the pattern is always {{quoted}}.
- *   If `'auto'`, the pattern is quoted if it starts with a {{.period}}.
+ *   If `'auto'`, the pattern is quoted if it starts with a {{.period}},
+ *   possibly after whitespace.
  *   If `false`, the output pattern is never quoted.
  */
 export function mf2SerializePattern(
@@ -61,7 +62,7 @@ export function mf2SerializePattern(
       str += isExpression(part) ? expression(part) : markup(part)
     }
   }
-  return quoted === true || (quoted === 'auto' && str.startsWith('.'))
+  return quoted === true || (quoted === 'auto' && complexStart.test(str))
     ? '{{' + str + '}}'
     : str
 }
@@ -112,6 +113,8 @@ function attributes(attr: Expression['attr']) {
   return str
 }
 
+const complexStart = /^[\t\n\r \u3000\u061C\u200E\u200F\u2066-\u2069]*\./
+
 const nameStart =
   'a-zA-Z_\\xC0-\\xD6\\xD8-\\xF6\\xF8-\\u02FF\\u0370-\\u037D\\u037F-\\u061B\\u061D-\\u1FFF\\u200C-\\u200D\\u2070-\\u218F\\u2C00-\\u2FEF\\u3001-\\uD7FF\\uF900-\\uFDCF\\uFDF0-\\uFFFC\\u{010000}-\\u{0EFFFF}'
 const name = new RegExp(
-- 
2.43.0


From e8a20e97324d48ae8882219651bc4b61ec178fa7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:05:46 +0000
Subject: [PATCH 140/190] fix: JavaScript Fluent serialization fails with
 variables named as Object.prototype properties

---
 js/src/fluent-serialize.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index 9f503fa..8ec77a3 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -206,7 +206,9 @@ function expression(
   isSelector: boolean
 ): string {
   if (declarations && expr.$) {
-    let decl = declarations[expr.$]
+    const getDeclaration = (name: string) =>
+      Object.hasOwn(declarations, name) ? declarations[name] : undefined
+    let decl = getDeclaration(expr.$)
     while (decl) {
       if (decl.fn && expr.fn && decl.fn !== expr.fn) {
         const error = `fluent: Unsupported placeholder ${JSON.stringify(expr)} with declaration ${JSON.stringify(decl)}`
@@ -216,7 +218,7 @@ function expression(
       const v1: string = decl.$!
       expr = expr.fn ? ({ ...expr, $: v1 } as Expression) : decl
       if (v0 === v1) break
-      else decl = declarations[v1]
+      else decl = getDeclaration(v1)
     }
   }
 
-- 
2.43.0


From e91c9ec7a7a8e1ed2be39fc363ff7c8dbd73c574 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:02 +0000
Subject: [PATCH 141/190] fix: JavaScript Fluent serialization writes literals
 with a final period as numbers

---
 js/src/fluent-serialize.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index 8ec77a3..6ea7b3f 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -309,7 +309,7 @@ function expression(
 
 function literal(value: string | undefined): string {
   if (!value) return '""'
-  if (/^-?\d+(\.\d*)?$/.test(value)) return value
+  if (/^-?\d+(\.\d+)?$/.test(value)) return value
   const escStr = value
     // eslint-disable-next-line no-control-regex
     .replace(/[\x00-\x1F\\"\x7F-\x9F]/g, (ch) => {
-- 
2.43.0


From 4628b2add48c533a9a6f8af78b38fab819675cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:30 +0000
Subject: [PATCH 142/190] fix: JavaScript Fluent serialization does not escape
 syntax at the start of a multiline pattern

---
 js/src/fluent-serialize.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index 6ea7b3f..09cda3a 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -179,7 +179,7 @@ export function fluentSerializePattern(
         part = part.replace(
           /([{}])|(\n *)([*.[])/g,
           (_, syntax1, ws, syntax2) =>
-            (ws ?? '') + `{ "${syntax1 ?? syntax2}" }`
+            (ws ?? '') + placeable(syntax1 ?? syntax2)
         )
       }
       str += part
@@ -197,9 +197,15 @@ export function fluentSerializePattern(
       }
     }
   }
+  if (escapeSyntax && /^[*.[]/.test(str) && str.includes('\n')) {
+    // A multiline pattern will start on its own line
+    str = placeable(str[0]) + str.substring(1)
+  }
   return str
 }
 
+const placeable = (text: string) => `{ ${stringLiteral(text)} }`
+
 function expression(
   expr: Expression | Markup,
   declarations: Record<string, Expression> | undefined,
@@ -310,6 +316,10 @@ function expression(
 function literal(value: string | undefined): string {
   if (!value) return '""'
   if (/^-?\d+(\.\d+)?$/.test(value)) return value
+  return stringLiteral(value)
+}
+
+function stringLiteral(value: string): string {
   const escStr = value
     // eslint-disable-next-line no-control-regex
     .replace(/[\x00-\x1F\\"\x7F-\x9F]/g, (ch) => {
-- 
2.43.0


From 001cee77232e11ea1ef99d30deb2231b34eeb008 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:40 +0000
Subject: [PATCH 143/190] fix: JavaScript Fluent serialization does not escape
 carriage returns

---
 js/src/fluent-serialize.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index 09cda3a..356c4d0 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -177,7 +177,7 @@ export function fluentSerializePattern(
     if (typeof part === 'string') {
       if (escapeSyntax) {
         part = part.replace(
-          /([{}])|(\n *)([*.[])/g,
+          /([{}\r])|(\n *)([*.[])/g,
           (_, syntax1, ws, syntax2) =>
             (ws ?? '') + placeable(syntax1 ?? syntax2)
         )
-- 
2.43.0


From 0a36417e6b1ac63adc4635c1e319f77b153cec16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:06:55 +0000
Subject: [PATCH 144/190] fix: JavaScript Fluent serialization drops spaces
 from lines with only spaces

---
 js/src/fluent-serialize.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index 356c4d0..567b732 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -177,9 +177,9 @@ export function fluentSerializePattern(
     if (typeof part === 'string') {
       if (escapeSyntax) {
         part = part.replace(
-          /([{}\r])|(\n *)([*.[])/g,
-          (_, syntax1, ws, syntax2) =>
-            (ws ?? '') + placeable(syntax1 ?? syntax2)
+          /([{}\r])|(\n *)([*.[])|(?<=\n)( +)(?=\n)/g,
+          (_, syntax1, ws, syntax2, blank) =>
+            (ws ?? '') + placeable(syntax1 ?? syntax2 ?? blank)
         )
       }
       str += part
-- 
2.43.0


From dfc647ab786c27dd6cea3addf14658e2c7f09399 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:08 +0000
Subject: [PATCH 145/190] fix: JavaScript Fluent serialization adds spaces
 after line and paragraph separators

---
 js/src/fluent-serialize.ts | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index 567b732..26ceb18 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -42,7 +42,7 @@ export function fluentSerializeEntry(
   const msgStr = fluentSerializeMessage(entry['='], options)
   if (msgStr) {
     str += msgStr.includes('\n')
-      ? '\n' + msgStr.replace(/^/gm, '    ')
+      ? '\n' + indent(msgStr, 4)
       : ' ' + msgStr
   } else if (isTerm || !entry['+']) {
     str += ' { "" }'
@@ -59,7 +59,7 @@ export function fluentSerializeEntry(
       str += `    .${name} =`
       const attrStr = fluentSerializeMessage(value, options) || '{ "" }'
       str += attrStr.includes('\n')
-        ? `\n${attrStr.replace(/^/gm, '        ')}\n`
+        ? `\n${indent(attrStr, 8)}\n`
         : ` ${attrStr}\n`
     }
   }
@@ -157,7 +157,7 @@ function variant(
   const pre = `   ${d}[${k}]`
   const value = pattern.join('').trimEnd() || '{ "" }'
   return value.includes('\n')
-    ? `${pre}\n${value.replace(/^/gm, '        ')}\n`
+    ? `${pre}\n${indent(value, 8)}\n`
     : `${pre} ${value}\n`
 }
 
@@ -313,6 +313,9 @@ function expression(
   throw new SerializeError(error)
 }
 
+const indent = (str: string, n: number) =>
+  str.replace(/(?<=^|\n)/g, ' '.repeat(n))
+
 function literal(value: string | undefined): string {
   if (!value) return '""'
   if (/^-?\d+(\.\d+)?$/.test(value)) return value
-- 
2.43.0


From 45e91e37087815c2bdff49baf56785f6938f7f68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:07:22 +0000
Subject: [PATCH 146/190] fix: JavaScript Fluent serialization drops
 non-breaking spaces from the end of variants

---
 js/src/fluent-serialize.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index 26ceb18..2ca3d25 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -155,7 +155,7 @@ function variant(
   }
   const d = typeof key === 'string' ? ' ' : '*'
   const pre = `   ${d}[${k}]`
-  const value = pattern.join('').trimEnd() || '{ "" }'
+  const value = pattern.join('').replace(/[ \n\r]+$/, '') || '{ "" }'
   return value.includes('\n')
     ? `${pre}\n${indent(value, 8)}\n`
     : `${pre} ${value}\n`
-- 
2.43.0


From 9ccb707f53357c93767c3cd0133e765182555e58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:08 +0000
Subject: [PATCH 147/190] fix: JavaScript Fluent serialization writes string
 literals as numbers

---
 js/src/fluent-serialize.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index 2ca3d25..07bf72a 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -229,7 +229,10 @@ function expression(
   }
 
   let arg: string | undefined
-  if ('_' in expr && expr._ !== undefined) arg = literal(expr._)
+  if ('_' in expr && expr._ !== undefined) {
+    arg =
+      expr.fn && expr.fn !== 'string' ? literal(expr._) : stringLiteral(expr._)
+  }
   else if ('$' in expr && isIdentifier(expr.$)) arg = '$' + expr.$
 
   if ('fn' in expr && isIdentifier(expr.fn)) {
-- 
2.43.0


From af3536f3fe234d1ca26cb0faa231c70b59ac7d54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:08:54 +0000
Subject: [PATCH 148/190] fix: JavaScript Fluent serialization drops or rejects
 STRING() and MESSAGE() functions

---
 js/src/fluent-serialize.ts | 25 +++++++++++--------------
 1 file changed, 11 insertions(+), 14 deletions(-)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index 07bf72a..f0dfe6a 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -98,7 +98,8 @@ export function fluentSerializeMessage(
     const selector =
       isIdentifier(selExpr.$) &&
       !selExpr.opt &&
-      (selExpr.fn === 'number' || selExpr.fn === 'string')
+      (selExpr.fn === 'number' ||
+        (selExpr.fn === 'string' && !selExpr.attr?.['fluent-fn']))
         ? '$' + selExpr.$
         : expression(selExpr, undefined, true)
     let baseKeys = ''
@@ -247,9 +248,10 @@ function expression(
       }
     }
     options.sort()
-    let ftlName
+    let ftlName = expr.attr?.['fluent-fn']
     switch (expr.fn) {
       case 'message': {
+        if (ftlName) break
         if (expr._ !== undefined) {
           const id = expr._
           const isTerm = id.startsWith('-')
@@ -275,6 +277,7 @@ function expression(
       }
 
       case 'string':
+        if (ftlName) break
         if (!arg) {
           throw new SerializeError('fluent: Argument required for :string')
         }
@@ -289,7 +292,6 @@ function expression(
         if (!arg) {
           throw new SerializeError(`fluent: Argument required for :${expr.fn}`)
         }
-        ftlName = expr.attr?.['fluent-fn']
         if (!ftlName) {
           if (expr.fn === 'number') {
             if (options.length === 0) return arg
@@ -298,18 +300,13 @@ function expression(
             ftlName = 'DATETIME'
           }
         }
-      // fallthrough
-
-      default: {
-        ftlName ??= expr.attr?.['fluent-fn']
-        if (!ftlName || typeof ftlName !== 'string') {
-          const error = `fluent: A @fluent-fn attribute is required for :${expr.fn}`
-          throw new SerializeError(error)
-        }
-        if (arg) options.unshift(arg)
-        return ftlName + '(' + options.join(', ') + ')'
-      }
     }
+    if (!ftlName || typeof ftlName !== 'string') {
+      const error = `fluent: A @fluent-fn attribute is required for :${expr.fn}`
+      throw new SerializeError(error)
+    }
+    if (arg) options.unshift(arg)
+    return ftlName + '(' + options.join(', ') + ')'
   }
   if (arg) return arg
   const error = `fluent: Unsupported pattern part ${JSON.stringify(expr)}`
-- 
2.43.0


From 4280f721e5b691562be46feb676da3d08cbe6401 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:55 +0000
Subject: [PATCH 149/190] fix: JavaScript Fluent parser leaves escapes in
 function and selector arguments

---
 js/src/fluent-parse.ts | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/js/src/fluent-parse.ts b/js/src/fluent-parse.ts
index 5b0427b..c20072f 100644
--- a/js/src/fluent-parse.ts
+++ b/js/src/fluent-parse.ts
@@ -258,7 +258,7 @@ function selectExpression(
       : 'string'
     return { $: ftlSel.id.name, fn }
   } else if (ftlSel instanceof FTL.StringLiteral) {
-    return { _: ftlSel.value, fn: 'string' }
+    return { _: literalValue(ftlSel), fn: 'string' }
   } else {
     return expression(ftlSel, true)
   }
@@ -343,7 +343,7 @@ function expression(
     if (fe.arguments?.named.length) {
       expr.opt = Object.create(null) as Record<string, string>
       for (const arg of fe.arguments.named) {
-        expr.opt[arg.name.name] = arg.value.value
+        expr.opt[arg.name.name] = literalValue(arg.value)
       }
     }
     return expr
@@ -353,8 +353,8 @@ function expression(
     const name = ftlName.toLowerCase()
     const arg = fe.arguments.positional[0]
     let expr: Expression
-    if (arg instanceof FTL.BaseLiteral) {
-      expr = { _: arg.value, fn: name }
+    if (arg instanceof FTL.NumberLiteral || arg instanceof FTL.StringLiteral) {
+      expr = { _: literalValue(arg), fn: name }
     } else if (arg instanceof FTL.VariableReference) {
       expr = { $: arg.id.name, fn: name }
     } else {
@@ -363,7 +363,7 @@ function expression(
     if (fe.arguments?.named.length) {
       expr.opt = Object.create(null) as Record<string, string>
       for (const arg of fe.arguments.named) {
-        expr.opt[arg.name.name] = arg.value.value
+        expr.opt[arg.name.name] = literalValue(arg.value)
       }
     }
     expr.attr = { 'fluent-fn': ftlName }
@@ -371,3 +371,6 @@ function expression(
   }
   throw new FluentError('E0028')
 }
+
+const literalValue = (lit: FTL.NumberLiteral | FTL.StringLiteral): string =>
+  lit instanceof FTL.StringLiteral ? lit.parse().value : lit.value
-- 
2.43.0


From 89142eb5daa637218aa7f7f272999080d0a1addb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:10:10 +0000
Subject: [PATCH 150/190] fix: JavaScript Fluent parser drops arguments of
 functions

---
 js/src/fluent-parse.ts | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/js/src/fluent-parse.ts b/js/src/fluent-parse.ts
index c20072f..5cbadc9 100644
--- a/js/src/fluent-parse.ts
+++ b/js/src/fluent-parse.ts
@@ -351,12 +351,22 @@ function expression(
   if (fe instanceof FTL.FunctionReference) {
     const ftlName = fe.id.name
     const name = ftlName.toLowerCase()
-    const arg = fe.arguments.positional[0]
+    if (fe.arguments.positional.length > 1) {
+      throw Error(
+        `Functions with more than one positional argument are not supported: ${ftlName}`
+      )
+    }
+    let arg = fe.arguments.positional[0]
+    while (arg instanceof FTL.Placeable && !(arg.expression instanceof FTL.SelectExpression)) {
+      arg = arg.expression
+    }
     let expr: Expression
     if (arg instanceof FTL.NumberLiteral || arg instanceof FTL.StringLiteral) {
       expr = { _: literalValue(arg), fn: name }
     } else if (arg instanceof FTL.VariableReference) {
       expr = { $: arg.id.name, fn: name }
+    } else if (arg) {
+      throw Error(`Unsupported argument for ${ftlName}`)
     } else {
       expr = { fn: name }
     }
-- 
2.43.0


From 3f5b6fbb84f1468933cb2ed52778f5d53d52aab3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:11:11 +0000
Subject: [PATCH 151/190] fix: JavaScript Fluent serialization rejects
 functions on the variables of selectors

---
 js/src/fluent-serialize.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index f0dfe6a..30266c3 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -217,7 +217,12 @@ function expression(
       Object.hasOwn(declarations, name) ? declarations[name] : undefined
     let decl = getDeclaration(expr.$)
     while (decl) {
-      if (decl.fn && expr.fn && decl.fn !== expr.fn) {
+      // In Fluent, these are plain variables
+      const isPlain =
+        (decl.fn === 'number' || decl.fn === 'string') &&
+        !decl.opt &&
+        !decl.attr?.['fluent-fn']
+      if (decl.fn && expr.fn && decl.fn !== expr.fn && !isPlain) {
         const error = `fluent: Unsupported placeholder ${JSON.stringify(expr)} with declaration ${JSON.stringify(decl)}`
         throw new SerializeError(error)
       }
-- 
2.43.0


From 974db855b481c6b94a2ed40325ae0dd7dc2a3eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:18 +0000
Subject: [PATCH 152/190] fix: JavaScript Fluent serialization drops arguments
 with unsupported variable names

---
 js/src/fluent-serialize.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index 30266c3..788523f 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -238,8 +238,12 @@ function expression(
   if ('_' in expr && expr._ !== undefined) {
     arg =
       expr.fn && expr.fn !== 'string' ? literal(expr._) : stringLiteral(expr._)
+  } else if ('$' in expr && expr.$ !== undefined) {
+    if (!isIdentifier(expr.$)) {
+      throw new SerializeError(`fluent: Unsupported variable name: ${expr.$}`)
+    }
+    arg = '$' + expr.$
   }
-  else if ('$' in expr && isIdentifier(expr.$)) arg = '$' + expr.$
 
   if ('fn' in expr && isIdentifier(expr.fn)) {
     const options: string[] = []
-- 
2.43.0


From 445a7a57668b3e8b10fd5a7423564e753fc805c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:27 +0000
Subject: [PATCH 153/190] fix: JavaScript Fluent serialization drops functions
 with unsupported names

---
 js/src/fluent-serialize.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index 788523f..43aa4f5 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -245,7 +245,7 @@ function expression(
     arg = '$' + expr.$
   }
 
-  if ('fn' in expr && isIdentifier(expr.fn)) {
+  if ('fn' in expr && expr.fn) {
     const options: string[] = []
     if (expr.opt) {
       for (const [name, value] of Object.entries(expr.opt)) {
-- 
2.43.0


From 338ff0d3e900ad8929749f68f4fb75f6ea1309c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:37 +0000
Subject: [PATCH 154/190] fix: JavaScript Fluent serialization does not
 validate the names of attributes, functions and options

---
 js/src/fluent-serialize.ts | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index 43aa4f5..91fdefd 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -56,6 +56,8 @@ export function fluentSerializeEntry(
       return an < bn ? -1 : an > bn ? 1 : 0
     })
     for (const [name, value] of properties) {
+      if (!isIdentifier(name))
+        throw new SerializeError(`Unsupported attribute identifier: ${name}`)
       str += `    .${name} =`
       const attrStr = fluentSerializeMessage(value, options) || '{ "" }'
       str += attrStr.includes('\n')
@@ -253,6 +255,9 @@ function expression(
           const error = `fluent: Unsupported option value for ${name}`
           throw new SerializeError(error)
         }
+        if (!isIdentifier(name)) {
+          throw new SerializeError(`fluent: Unsupported option name: ${name}`)
+        }
         options.push(`${name}: ${literal(value)}`)
       }
     }
@@ -314,6 +319,9 @@ function expression(
       const error = `fluent: A @fluent-fn attribute is required for :${expr.fn}`
       throw new SerializeError(error)
     }
+    if (!/^[A-Z][-0-9A-Z_]*$/.test(ftlName)) {
+      throw new SerializeError(`fluent: Unsupported function name: ${ftlName}`)
+    }
     if (arg) options.unshift(arg)
     return ftlName + '(' + options.join(', ') + ')'
   }
-- 
2.43.0


From 17d62ba36d0d6689b08ecace33e30359adea47cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:13:42 +0000
Subject: [PATCH 155/190] fix: JavaScript Fluent serialization writes invalid
 variant keys

---
 js/src/fluent-serialize.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index 91fdefd..a560e96 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -153,7 +153,7 @@ function variant(
   pattern: string[]
 ): string {
   const k = typeof key === 'string' ? key : key['*'] || other
-  if (isNaN(Number(k)) && !/^[a-zA-Z][\w-]*$/.test(k)) {
+  if (!/^-?\d+(\.\d+)?$/.test(k) && !isIdentifier(k)) {
     throw new SerializeError(`Unsupported variant key: ${k}`)
   }
   const d = typeof key === 'string' ? ' ' : '*'
-- 
2.43.0


From 3df97e0231d0259b1900bb7be9bf9cce3fd0e61b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:08 +0000
Subject: [PATCH 156/190] fix: JavaScript Fluent serialization writes select
 expressions without a default variant

---
 js/src/fluent-serialize.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index a560e96..ba493d5 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -106,6 +106,14 @@ export function fluentSerializeMessage(
         : expression(selExpr, undefined, true)
     let baseKeys = ''
     let selPattern: string[] | null = null
+    let defaults = 0
+    const closeSelect = (selPattern: string[]) => {
+      if (defaults !== 1) {
+        const error = `fluent: Exactly one default variant is required for ${selector}`
+        throw new SerializeError(error)
+      }
+      selPattern.push('}')
+    }
     let i = 0
     while (i < variants.length) {
       const [keys, pattern] = variants[i]
@@ -116,14 +124,16 @@ export function fluentSerializeMessage(
         selPattern.push(varBody)
         variants.splice(i, 1)
       } else {
-        if (selPattern) selPattern.push('}')
+        if (selPattern) closeSelect(selPattern)
+        defaults = 0
         baseKeys = jsonKeys
         selPattern = pattern //ftl.SelectExpression(selector.clone(), [ftl_variant])
         selPattern.splice(0, selPattern.length, `{ ${selector} ->\n${varBody}`)
         i += 1
       }
+      if (typeof key !== 'string') defaults += 1
     }
-    if (selPattern) selPattern.push('}')
+    if (selPattern) closeSelect(selPattern)
   }
   if (variants.length !== 1)
     throw new SerializeError(
-- 
2.43.0


From a14fcee441a30c48416f9f474c6c2abcdc62ca15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:35 +0000
Subject: [PATCH 157/190] fix: JavaScript XML serialization does not report
 invalid element and attribute names to onError

---
 js/src/android-serialize.ts | 10 ++++++++--
 js/src/xliff-serialize.ts   |  8 ++++++--
 js/src/xml-utils.ts         | 22 ++++++++++++++++++++--
 3 files changed, 34 insertions(+), 6 deletions(-)

diff --git a/js/src/android-serialize.ts b/js/src/android-serialize.ts
index 202177b..f60ea50 100644
--- a/js/src/android-serialize.ts
+++ b/js/src/android-serialize.ts
@@ -16,7 +16,7 @@
 import { resoureRef } from './android-parse.ts'
 import { ERROR_RESULT, SerializeError } from './errors.ts'
 import { isExpression, type Expression, type Pattern } from './model.ts'
-import { appendText, serialize, setAttributes } from './xml-utils.ts'
+import { appendText, createElement, serialize, setAttributes } from './xml-utils.ts'
 
 const xliffNS = 'urn:oasis:names:tc:xliff:document:1.2'
 
@@ -65,10 +65,16 @@ export function androidSerializePattern(
         appendText(node, asTextContent(part, entities, onError))
       }
     } else if (part.open) {
-      const child = doc.createElementNS(
+      const child = createElement(
+        doc,
         part.open.startsWith('xliff:') ? xliffNS : null,
         part.open
       )
+      if (!child) {
+        const error = `android: Unsupported element name ${part.open}`
+        onError(new SerializeError(error))
+        continue
+      }
       for (const error of setAttributes(child, part.opt)) {
         onError(new SerializeError(`android: ${error}`))
       }
diff --git a/js/src/xliff-serialize.ts b/js/src/xliff-serialize.ts
index 0eac987..db8460d 100644
--- a/js/src/xliff-serialize.ts
+++ b/js/src/xliff-serialize.ts
@@ -15,7 +15,7 @@
 
 import { ERROR_RESULT, SerializeError } from './errors.ts'
 import type { Pattern } from './model.ts'
-import { appendText, serialize, setAttributes } from './xml-utils.ts'
+import { appendText, createElement, serialize, setAttributes } from './xml-utils.ts'
 
 export function xliffSerializePattern(
   pattern: Pattern,
@@ -32,7 +32,11 @@ export function xliffSerializePattern(
       appendText(node, part)
     } else if (part.open || part.elem) {
       const name = part.open || part.elem!
-      const child = doc.createElementNS(null, name)
+      const child = createElement(doc, null, name)
+      if (!child) {
+        onError(new SerializeError(`xliff: Unsupported element name ${name}`))
+        continue
+      }
       for (const error of setAttributes(child, part.opt)) {
         onError(new SerializeError(`xliff: ${error}`))
       }
diff --git a/js/src/xml-utils.ts b/js/src/xml-utils.ts
index f0c2d37..7057045 100644
--- a/js/src/xml-utils.ts
+++ b/js/src/xml-utils.ts
@@ -20,6 +20,19 @@ export function appendText(el: Element, str: string) {
   else el.appendChild(new Text(str))
 }
 
+/** Returns `null` if `name` is not a valid element name */
+export function createElement(
+  doc: Document,
+  ns: string | null,
+  name: string
+): Element | null {
+  try {
+    return doc.createElementNS(ns, name)
+  } catch {
+    return null
+  }
+}
+
 export function serialize(root: Element) {
   const name = root.tagName
   const str = new XMLSerializer().serializeToString(root)
@@ -41,8 +54,13 @@ export function* setAttributes(
 ): Iterable<string> {
   if (opt) {
     for (const [name, value] of Object.entries(opt)) {
-      if (typeof value === 'string') el.setAttribute(name, value)
-      else yield `Unsupported value for <${el.tagName}> option ${name}`
+      if (typeof value === 'string') {
+        try {
+          el.setAttribute(name, value)
+        } catch {
+          yield `Unsupported name for <${el.tagName}> option ${name}`
+        }
+      } else yield `Unsupported value for <${el.tagName}> option ${name}`
     }
   }
 }
-- 
2.43.0


From 0f7a93f989ded43f3986be824386d610e6f88b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:46 +0000
Subject: [PATCH 158/190] fix: JavaScript propertiesParsePattern() does not
 unescape line and paragraph separators

---
 js/src/properties-parse.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/properties-parse.ts b/js/src/properties-parse.ts
index 621f54d..d363f8c 100644
--- a/js/src/properties-parse.ts
+++ b/js/src/properties-parse.ts
@@ -16,7 +16,7 @@
 import type { Pattern } from './model.ts'
 
 export function propertiesParsePattern(src: string): Pattern {
-  const value = src.replace(/\\(u[0-9A-Fa-f]{1,4}|.)/g, decodeEscape)
+  const value = src.replace(/\\(u[0-9A-Fa-f]{1,4}|[^\n\r])/g, decodeEscape)
   return value ? [value] : []
 }
 
-- 
2.43.0


From 2f4a4702a731fd6f02d76db4e981eefbac90d60a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:20:54 +0000
Subject: [PATCH 159/190] fix: JavaScript fluentParsePattern() rejects nested
 placeables

---
 js/src/fluent-parse.ts | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/js/src/fluent-parse.ts b/js/src/fluent-parse.ts
index 5cbadc9..cc1c0b1 100644
--- a/js/src/fluent-parse.ts
+++ b/js/src/fluent-parse.ts
@@ -285,7 +285,10 @@ export function fluentParsePattern(
         case '{': {
           ps.next()
           ps.skipBlank()
-          const fe = new FluentParser().getInlineExpression(ps)
+          let fe: FTL.Placeable['expression'] | FTL.Placeable =
+            new FluentParser().getInlineExpression(ps)
+          while (fe instanceof FTL.Placeable) fe = fe.expression
+          if (fe instanceof FTL.SelectExpression) throw new FluentError('E0028')
           const expr = expression(fe, false)
           ps.skipBlank()
           if (ps.currentChar() === '-' && ps.peek() === '>') {
-- 
2.43.0


From 3ce70c0230ed82ecf03c85c608b1050e7a0b253a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:27:34 +0000
Subject: [PATCH 160/190] fix: JavaScript androidParsePattern() mixes entity
 references with protected text, tags and placeholders

---
 js/src/android-parse.ts | 26 ++++++++++++++------------
 1 file changed, 14 insertions(+), 12 deletions(-)

diff --git a/js/src/android-parse.ts b/js/src/android-parse.ts
index 9ad7428..a70d6c0 100644
--- a/js/src/android-parse.ts
+++ b/js/src/android-parse.ts
@@ -51,7 +51,7 @@ export function androidParsePattern(src: string): Pattern {
     return [{ _: root.textContent!, fn: 'reference' }]
   }
 
-  const pattern = Array.from(flattenElements(root))
+  const pattern = Array.from(flattenElements(root, entities))
   if (pattern.length > 0) {
     const part0 = pattern[0]
     if (typeof part0 === 'string') pattern[0] = part0.trimStart()
@@ -61,15 +61,20 @@ export function androidParsePattern(src: string): Pattern {
     if (typeof part1 === 'string') pattern[pattern.length - 1] = part1.trimEnd()
   }
   const spaced = parseQuotes(pattern)
-  return Array.from(parseInline(spaced, entities))
+  return Array.from(parseInline(spaced))
 }
 
 function* flattenElements(
-  root: Element
+  root: Element,
+  entities: Record<string, string>
 ): Iterable<string | Expression | Markup> {
   for (const node of root.childNodes as Iterable<ChildNode>) {
     if (node instanceof Text) {
-      if (node.textContent) yield node.textContent
+      for (const part of node.data.split(/(_entity_\d+_)/)) {
+        if (Object.hasOwn(entities, part)) {
+          yield { $: entities[part], fn: 'entity' }
+        } else if (part) yield part
+      }
       continue
     }
     if (!(node instanceof Element)) {
@@ -83,7 +88,7 @@ function* flattenElements(
         opt[attr.name] = attr.value
       }
     }
-    const body = Array.from(flattenElements(node))
+    const body = Array.from(flattenElements(node, entities))
     if (node.tagName === 'xliff:g') {
       if (
         body.some(
@@ -176,14 +181,13 @@ const unescape = (src: string) =>
 
 const _inline =
   // 1:esc-unicode     2:esc-char       4:printf                         5:printf-conversion
-  //                         3:esc-elem                                            6:xml-entity
-  /\\u([0-9A-Fa-f]{4})|\\(.)|(<[^%>]+>)|(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?[^\\\n]))|(_entity_\d+_)/g
+  //                         3:esc-elem
+  /\\u([0-9A-Fa-f]{4})|\\(.)|(<[^%>]+>)|(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?[^\\\n]))/g
 const _blocktag = /^<(div|h[123456r]|p|d[dt]|li|\/?[dou]l)\b/
 const _breaktag = /^<[bh]r\/?>$/
 
 function* parseInline(
-  pattern: Iterable<string | Expression | Markup>,
-  entities: Record<string, string>
+  pattern: Iterable<string | Expression | Markup>
 ): Iterable<string | Expression | Markup> {
   let buffer = ''
   let atBreak = false
@@ -216,7 +220,7 @@ function* parseInline(
           if (tag) {
             yield { _: tag, fn: 'html' }
             atBreak = _breaktag.test(tag)
-          } else if (m[4]) {
+          } else {
             const attr = Object.create(null)
             attr.source = m[0]
             let fn: string | undefined = undefined
@@ -273,8 +277,6 @@ function* parseInline(
               prevVarName = name
             }
             yield { $: name, fn, attr }
-          } else {
-            yield { $: entities[m[6]] ?? 'UNKNOWN', fn: 'entity' }
           }
         }
       }
-- 
2.43.0


From 9f219995ef4ab77e2377859ee6e9d4c596af2214 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:00 +0000
Subject: [PATCH 161/190] fix: JavaScript androidSerializePattern() rejects
 attributes of protected entity references

---
 js/src/android-serialize.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/android-serialize.ts b/js/src/android-serialize.ts
index f60ea50..09fd668 100644
--- a/js/src/android-serialize.ts
+++ b/js/src/android-serialize.ts
@@ -139,7 +139,7 @@ function asTextContent(
       const error = `android: Invalid entity: ${JSON.stringify(part)}`
       onError(new SerializeError(error))
     }
-    if (part.opt) {
+    if (part.opt && part.attr?.translate !== 'no') {
       const error = `android: Unsupported options on entity &${part.$};`
       onError(new SerializeError(error))
     }
-- 
2.43.0


From 18ba900a5f4746ea0053d30f2deb6be0a0b85656 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:28:08 +0000
Subject: [PATCH 162/190] fix: JavaScript androidParsePattern() does not report
 unsupported contents as ParseError

---
 js/src/android-parse.ts | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/js/src/android-parse.ts b/js/src/android-parse.ts
index a70d6c0..390848d 100644
--- a/js/src/android-parse.ts
+++ b/js/src/android-parse.ts
@@ -78,13 +78,18 @@ function* flattenElements(
       continue
     }
     if (!(node instanceof Element)) {
-      throw Error(`Unsupported node type ${node.nodeType}`)
+      throw new ParseError(`android: Unsupported node type ${node.nodeType}`)
     }
 
     let opt: Record<string, string> | undefined = undefined
     if (node.hasAttributes()) {
       opt = Object.create(null) as Record<string, string>
       for (const attr of node.attributes as Iterable<Attr>) {
+        if (attr.value.split(/(_entity_\d+_)/).some((key) => key in entities)) {
+          throw new ParseError(
+            `android: Unsupported entity reference in attribute ${attr.name}`
+          )
+        }
         opt[attr.name] = attr.value
       }
     }
-- 
2.43.0


From d35e0c2bb2d84dde1ddbc7751a2b1e8ebe6c97c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:29:52 +0000
Subject: [PATCH 163/190] fix: JavaScript fluentParseEntry() loses variants and
 repeats declaration names of messages with multiple selects

---
 js/src/fluent-parse.ts | 200 ++++++++++++++++++++++++++++-------------
 1 file changed, 137 insertions(+), 63 deletions(-)

diff --git a/js/src/fluent-parse.ts b/js/src/fluent-parse.ts
index cc1c0b1..a597003 100644
--- a/js/src/fluent-parse.ts
+++ b/js/src/fluent-parse.ts
@@ -91,33 +91,37 @@ type SelectorResultRow = {
   keys: Key[]
 }
 
+type MessageVariant = {
+  keys: Key[]
+  pattern: Pattern
+  /**
+   * For each selector, true if one of its keys is matched explicitly,
+   * false if it's only matched as a default, and undefined if it's not used at all.
+   */
+  explicit: (boolean | undefined)[]
+}
+
 function message(ftlPattern: FTL.Pattern): Message {
   const selData = findSelectors(ftlPattern, [])
   const selExpressions = selData.map((row) => row.msgSel)
-  let msgVariants: [Key[], Pattern][]
   const varNames = new Set<string>()
-  switch (selExpressions.length) {
-    case 0:
-      msgVariants = [[[], []]]
-      break
-    case 1:
-      msgVariants = uniqueKeys(selData[0]).map((key) => [[key], []])
-      break
-    default: {
-      // With multiple selectors, for each selector,
-      // ensure that a row of keys exists with each of its values in its key column,
-      // combined with each value of all other selectors.
-      // Effectively this involves a cross product of two vectors.
-      const selKeyValues = selData.map(uniqueKeys)
-      // @ts-expect-error TS doesn't support this (valid) reduce variant
-      const keyMatrix = selKeyValues.reduce((res: Key[] | Key[][], selKeys) =>
-        res.flatMap((prev) => selKeys.map((key) => [prev, key].flat()))
-      ) as Key[][]
-      msgVariants = keyMatrix.map((keys) => [keys, []])
-    }
-  }
 
-  const filter: (Key | undefined)[] = new Array(selExpressions.length)
+  // With multiple selectors, for each selector,
+  // ensure that a row of keys exists with each of its values in its key column,
+  // combined with each value of all other selectors.
+  // Effectively this involves a cross product of two vectors.
+  const selKeys = selData.map(uniqueKeys)
+  const msgVariants: MessageVariant[] = product(selKeys).map((keys) => ({
+    keys,
+    pattern: [],
+    explicit: keys.map(() => undefined)
+  }))
+
+  // For each selector, the identifiers of the keys that are matched.
+  // The value is true if the key is matched explicitly.
+  const filter: (Map<string, boolean> | undefined)[] = selKeys.map(
+    () => undefined
+  )
 
   function addPattern(ftlPattern: FTL.Pattern) {
     let el:
@@ -129,32 +133,42 @@ function message(ftlPattern: FTL.Pattern): Message {
       while (el instanceof FTL.Placeable) el = el.expression
       if (el instanceof FTL.SelectExpression) {
         const ftlSel = el.selector
-        const msgSel = selData.find((row) =>
+        const idx = selData.findIndex((row) =>
           row.ftlSelectors.includes(ftlSel)
-        )!.msgSel
-        const idx = selExpressions.indexOf(msgSel)
+        )
         const prevFilt = filter[idx]
+        const elKeys = new Set(el.variants.map((v) => keyId(variantKey(v))))
         for (const v of el.variants) {
-          filter[idx] = variantKey(v)
-          addPattern(v.value)
+          const vk = keyId(variantKey(v))
+          // The default also matches keys that are only used by
+          // other select expressions with the same selector.
+          const next = new Map<string, boolean>()
+          for (const key of prevFilt?.keys() ?? selKeys[idx].map(keyId)) {
+            if (key === vk || (v.default && !elKeys.has(key))) {
+              next.set(key, key === vk || (prevFilt?.get(key) ?? false))
+            }
+          }
+          if (next.size) {
+            filter[idx] = next
+            addPattern(v.value)
+          }
         }
         filter[idx] = prevFilt
       } else {
-        for (const [keys, pat] of msgVariants) {
-          if (
-            filter.every(
-              (filt, idx) => filt === undefined || keysEqual(filt, keys[idx])
-            )
-          ) {
-            if (el instanceof FTL.TextElement) {
-              if (typeof pat.at(-1) === 'string')
-                pat[pat.length - 1] += el.value
-              else pat.push(el.value)
-            } else {
-              const expr = expression(el, false)
-              if (expr.$) varNames.add(expr.$)
-              pat.push(expr)
-            }
+        for (const { keys, pattern, explicit } of msgVariants) {
+          const matches = keys.map((key, idx) => filter[idx]?.get(keyId(key)))
+          if (matches.some((m, idx) => filter[idx] && m === undefined)) continue
+          for (const [idx, m] of matches.entries()) {
+            if (m !== undefined) explicit[idx] ||= m
+          }
+          if (el instanceof FTL.TextElement) {
+            if (typeof pattern.at(-1) === 'string') {
+              pattern[pattern.length - 1] += el.value
+            } else pattern.push(el.value)
+          } else {
+            const expr = expression(el, false)
+            if (expr.$) varNames.add(expr.$)
+            pattern.push(expr)
           }
         }
       }
@@ -163,11 +177,12 @@ function message(ftlPattern: FTL.Pattern): Message {
   addPattern(ftlPattern)
 
   if (selExpressions.length) {
+    for (const expr of selExpressions) if (expr.$) varNames.add(expr.$)
     const decl: Record<string, Expression> = {}
     const sel: string[] = []
     for (const expr of selExpressions) {
       let name = expr.$
-      if (!name || expr.attr?.['fluent-fn']) {
+      if (!name || sel.includes(name) || expr.attr?.['fluent-fn']) {
         const stem = name || 'sel'
         let i = 0
         do {
@@ -179,19 +194,83 @@ function message(ftlPattern: FTL.Pattern): Message {
       varNames.add(name)
     }
 
-    function message_key(key: Key): string | CatchallKey {
-      return key.isDefault ? { '*': key.name } : key.name
-    }
-
-    const alt = msgVariants
-      .filter((mv) => mv[1].length)
-      .map(([keys, pat]) => ({ keys: keys.map(message_key), pat }))
+    const alt = usedVariants(selKeys, msgVariants).map((mv) => ({
+      keys: mv.keys.map((key) =>
+        key.isDefault ? { '*': key.name } : key.name
+      ),
+      pat: mv.pattern
+    }))
     return { decl, sel, alt }
   } else {
-    return msgVariants[0][1]
+    return msgVariants[0].pattern
+  }
+}
+
+/** The variants that are needed for the message to have the right value for all combinations of keys. */
+function usedVariants(
+  selKeys: Key[][],
+  msgVariants: MessageVariant[]
+): MessageVariant[] {
+  const defaults = selKeys.map((keys) => keys.find((key) => key.isDefault)!)
+  const rowId = (keys: Key[]) => keys.map(keyId).join(' ')
+  const patterns = new Map<string, MessageVariant>()
+  const used = new Map<string, Key[]>()
+  for (const mv of msgVariants) {
+    if (mv.pattern.length) {
+      const keys = mv.keys.map((key, i) => (key.isDefault ? defaults[i] : key))
+      patterns.set(rowId(keys), { ...mv, keys })
+      if (!mv.explicit.includes(false)) used.set(rowId(keys), keys)
+    }
+  }
+  const keyOrder = selKeys.map((keys, i) => [
+    defaults[i],
+    ...keys.filter((key) => !key.isDefault)
+  ])
+  let count = -1
+  while (count !== used.size) {
+    count = used.size
+    // Each selector needs to have a default variant,
+    // even if it has the same value as that of an earlier selector.
+    const prefixes = new Set<string>()
+    for (const keys of used.values()) {
+      keys.forEach((_, i) => prefixes.add(rowId(keys.slice(0, i + 1))))
+    }
+    for (const keys of [...used.values()]) {
+      for (let i = 0; i < keys.length; ++i) {
+        const fallback = [...keys.slice(0, i), ...defaults.slice(i)]
+        if (!prefixes.has(rowId(fallback.slice(0, i + 1)))) {
+          used.set(rowId(fallback), fallback)
+        }
+      }
+    }
+    // The best match among the other variants may not have the right value.
+    // The order here is from the most generic to the most specific keys.
+    for (const keys of product(keyOrder)) {
+      const id = rowId(keys)
+      const pattern = patterns.get(id)?.pattern
+      if (pattern && !used.has(id)) {
+        const best = product(keys.map((key, i) => [key, defaults[i]]))
+          .map(rowId)
+          .find((match) => used.has(match))
+        if (
+          best === undefined ||
+          JSON.stringify(patterns.get(best)?.pattern) !==
+            JSON.stringify(pattern)
+        ) {
+          used.set(id, keys)
+        }
+      }
+    }
   }
+  return [...patterns].filter(([id]) => used.has(id)).map(([_, mv]) => mv)
 }
 
+const product = <T>(lists: T[][]): T[][] =>
+  lists.reduce<T[][]>(
+    (res, list) => res.flatMap((prev) => list.map((item) => [...prev, item])),
+    [[]]
+  )
+
 function findSelectors(
   pattern: FTL.Pattern,
   result: SelectorResultRow[]
@@ -221,24 +300,19 @@ function findSelectors(
   return result
 }
 
-function uniqueKeys({ keys }: SelectorResultRow): Key[] {
-  const res: Key[] = []
-  for (const key of keys) {
-    if (res.every((prev) => !keysEqual(prev, key))) res.push(key)
-  }
-  return res
-}
+const uniqueKeys = ({ keys }: SelectorResultRow): Key[] => [
+  ...new Map(keys.map((key) => [keyId(key), key])).values()
+]
 
-const keysEqual = (a: Key, b: Key) =>
-  a.name === b.name &&
-  a.isDefault === b.isDefault &&
-  a.isNumeric === b.isNumeric
+const keyId = ({ name, isDefault, isNumeric }: Key) =>
+  `${isDefault ? '*' : ''}${isNumeric ? '#' : ''}${name}`
 
 const exprEqual = (a: Expression, b: Expression) =>
   a.$ === b.$ &&
   a._ === b._ &&
   a.fn === b.fn &&
-  (a.opt === b.opt || JSON.stringify(a.opt) === JSON.stringify(b.opt))
+  JSON.stringify(a.opt) === JSON.stringify(b.opt) &&
+  JSON.stringify(a.attr) === JSON.stringify(b.attr)
 
 function variantKey(v: FTL.Variant): Key {
   if (v.key instanceof FTL.Identifier) {
-- 
2.43.0


From 78f1a61b818f8c4eddee5311159b481ab8da1301 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:47 +0000
Subject: [PATCH 164/190] fix: JavaScript androidParsePattern() does not
 recognise references to resources with non-ASCII names

---
 js/src/android-parse.ts | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/js/src/android-parse.ts b/js/src/android-parse.ts
index 390848d..6a7d27a 100644
--- a/js/src/android-parse.ts
+++ b/js/src/android-parse.ts
@@ -21,7 +21,11 @@ import {
   type Pattern
 } from './model.ts'
 
-export const resoureRef = /^(?:@(?:\w+:)?\w+\/\w+|\?(?:\w+:)?(?:\w+\/)?\w+)$/
+const _word = '[\\p{L}\\p{N}_]+'
+export const resoureRef = new RegExp(
+  `^(?:@(?:${_word}:)?${_word}/${_word}|\\?(?:${_word}:)?(?:${_word}/)?${_word})$`,
+  'u'
+)
 
 const _xmlEntities = new Set(['amp', 'lt', 'gt', 'apos', 'quot'])
 let _xmlEntityKey = Math.floor(Math.random() * 1e9)
-- 
2.43.0


From 22e06220bbfd71deb242946fb5550342ab22b19a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:04 +0000
Subject: [PATCH 165/190] fix: JavaScript androidParsePattern() splits
 surrogate pairs and mistakes lone %t for a date

---
 js/src/android-parse.ts | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/js/src/android-parse.ts b/js/src/android-parse.ts
index 6a7d27a..19abf16 100644
--- a/js/src/android-parse.ts
+++ b/js/src/android-parse.ts
@@ -191,7 +191,7 @@ const unescape = (src: string) =>
 const _inline =
   // 1:esc-unicode     2:esc-char       4:printf                         5:printf-conversion
   //                         3:esc-elem
-  /\\u([0-9A-Fa-f]{4})|\\(.)|(<[^%>]+>)|(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?[^\\\n]))/g
+  /\\u([0-9A-Fa-f]{4})|\\(.)|(<[^%>]+>)|(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?[^\\\n]))/gu
 const _blocktag = /^<(div|h[123456r]|p|d[dt]|li|\/?[dou]l)\b/
 const _breaktag = /^<[bh]r\/?>$/
 
@@ -268,7 +268,7 @@ function* parseInline(
                 yield { _: '%', attr }
                 continue // for
               default:
-                if (m[5][0].toLowerCase() === 't') fn = 'datetime'
+                if (/^[tT]./su.test(m[5])) fn = 'datetime'
             }
             let name
             if (m[0].startsWith('%<')) {
-- 
2.43.0


From dc7dd7050aca59b6344c44a838c02d3587b92958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:33:11 +0000
Subject: [PATCH 166/190] fix: JavaScript androidParsePattern() accepts entity
 references in element and attribute names

---
 js/src/android-parse.ts | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/js/src/android-parse.ts b/js/src/android-parse.ts
index 19abf16..4f86a98 100644
--- a/js/src/android-parse.ts
+++ b/js/src/android-parse.ts
@@ -85,15 +85,13 @@ function* flattenElements(
       throw new ParseError(`android: Unsupported node type ${node.nodeType}`)
     }
 
+    rejectEntities(node.tagName, entities)
     let opt: Record<string, string> | undefined = undefined
     if (node.hasAttributes()) {
       opt = Object.create(null) as Record<string, string>
       for (const attr of node.attributes as Iterable<Attr>) {
-        if (attr.value.split(/(_entity_\d+_)/).some((key) => key in entities)) {
-          throw new ParseError(
-            `android: Unsupported entity reference in attribute ${attr.name}`
-          )
-        }
+        rejectEntities(attr.name, entities)
+        rejectEntities(attr.value, entities)
         opt[attr.name] = attr.value
       }
     }
@@ -145,6 +143,14 @@ function* flattenElements(
   }
 }
 
+function rejectEntities(src: string, entities: Record<string, string>) {
+  for (const key of src.match(/_entity_\d+_/g) ?? []) {
+    if (Object.hasOwn(entities, key)) {
+      throw new ParseError(`android: Unsupported entity &${entities[key]};`)
+    }
+  }
+}
+
 const _noTranslate = { translate: 'no' }
 const noTranslateAttr = (attr?: Record<string, string | true>) =>
   Object.assign(attr ?? Object.create(null), _noTranslate)
-- 
2.43.0


From 783afa03da6480bd7689a8e541fe02b8dcadf84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:40:14 +0000
Subject: [PATCH 167/190] fix: JavaScript androidParsePattern() does not
 unescape line and paragraph separators and carriage returns

---
 js/src/android-parse.ts | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/js/src/android-parse.ts b/js/src/android-parse.ts
index 4f86a98..1114493 100644
--- a/js/src/android-parse.ts
+++ b/js/src/android-parse.ts
@@ -163,7 +163,7 @@ function* parseQuotes(
     if (typeof part === 'string') {
       let pos = 0
       for (const m of part.matchAll(/(?<=(?<!\\)(?:\\\\)*)"/g)) {
-        if (pos === 0 && /<.+>/.test(part)) {
+        if (pos === 0 && /<[^\n]+>/.test(part)) {
           // Let's presume that double quotes near html-ish contents are intentional.
           break
         }
@@ -184,7 +184,7 @@ function* parseQuotes(
 }
 
 const unescape = (src: string) =>
-  src.replace(/\\u([0-9A-Fa-f]{4})|\\(.)/g, (_, code, ch) =>
+  src.replace(/\\u([0-9A-Fa-f]{4})|\\([^\n])/g, (_, code, ch) =>
     code
       ? String.fromCharCode(parseInt(code, 16))
       : ch === 'n'
@@ -195,9 +195,9 @@ const unescape = (src: string) =>
   )
 
 const _inline =
-  // 1:esc-unicode     2:esc-char       4:printf                         5:printf-conversion
-  //                         3:esc-elem
-  /\\u([0-9A-Fa-f]{4})|\\(.)|(<[^%>]+>)|(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?[^\\\n]))/gu
+  // 1:esc-unicode     2:esc-char           4:printf                         5:printf-conversion
+  //                             3:esc-elem
+  /\\u([0-9A-Fa-f]{4})|\\([^\n])|(<[^%>]+>)|(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?[^\\\n]))/gu
 const _blocktag = /^<(div|h[123456r]|p|d[dt]|li|\/?[dou]l)\b/
 const _breaktag = /^<[bh]r\/?>$/
 
-- 
2.43.0


From 8dbcb31cabf5b0e9aedcfe26657a0ba490398d75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:59 +0000
Subject: [PATCH 168/190] fix: Ignore comments and processing instructions
 within Android strings

---
 python/moz/l10n/formats/android/parse.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 476efe8..c31a625 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -333,6 +333,7 @@ resource_ref = compile(r"@(?:\w+:)?\w+/\w+|\?(?:\w+:)?(\w+/)?\w+")
 def parse_pattern(
     el: etree._Element, ascii_spaces: bool, literal_quotes: bool
 ) -> Iterator[str | Expression | Markup]:
+    etree.strip_tags(el, etree.Comment, etree.ProcessingInstruction)
     if len(el) == 0 and el.text and resource_ref.fullmatch(el.text):
         # https://developer.android.com/guide/topics/resources/providing-resources#ResourcesFromXml
         yield Expression(el.text, "reference")
-- 
2.43.0


From daeec6d6f00d397a4b97b92b5746341c4a00c076 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:45:01 +0000
Subject: [PATCH 169/190] fix: Ignore comments and processing instructions
 within XLIFF targets

---
 .../l10n/formats/xliff/parse_trans_unit.py    | 24 +++++++++----------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse_trans_unit.py b/python/moz/l10n/formats/xliff/parse_trans_unit.py
index 6f0579c..9dd858a 100644
--- a/python/moz/l10n/formats/xliff/parse_trans_unit.py
+++ b/python/moz/l10n/formats/xliff/parse_trans_unit.py
@@ -16,8 +16,6 @@ from __future__ import annotations
 
 from collections import defaultdict
 from collections.abc import Iterator
-from typing import cast
-
 from lxml import etree
 
 from ...model import (
@@ -86,16 +84,18 @@ def parse_pattern(
         else:
             yield el.text
     for child in el:
-        q = etree.QName(cast(str, child.tag))
-        ns = q.namespace
-        name = q.localname if not ns or ns in xliff_ns else q.text
-        options: dict[str, str | VariableRef] = dict(child.attrib)
-        if name in ("x", "bx", "ex"):
-            yield Markup("standalone", name, options)
-        elif isinstance(child.tag, str):
-            yield Markup("open", name, options)
-            yield from parse_pattern(child, is_xcode)
-            yield Markup("close", name)
+        # Comments and processing instructions are not included in the pattern
+        if isinstance(child.tag, str):
+            q = etree.QName(child.tag)
+            ns = q.namespace
+            name = q.localname if not ns or ns in xliff_ns else q.text
+            options: dict[str, str | VariableRef] = dict(child.attrib)
+            if name in ("x", "bx", "ex"):
+                yield Markup("standalone", name, options)
+            else:
+                yield Markup("open", name, options)
+                yield from parse_pattern(child, is_xcode)
+                yield Markup("close", name)
         if child.tail:
             if is_xcode:
                 yield from parse_xcode_pattern(child.tail)
-- 
2.43.0


From f8ed3a5e88537ac46416c4f88b84c5d2ff9dbbd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:20 +0000
Subject: [PATCH 170/190] fix: JavaScript androidParsePattern() rejects
 comments and processing instructions

---
 js/src/android-parse.ts | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/js/src/android-parse.ts b/js/src/android-parse.ts
index 1114493..d4dcc61 100644
--- a/js/src/android-parse.ts
+++ b/js/src/android-parse.ts
@@ -50,6 +50,9 @@ export function androidParsePattern(src: string): Pattern {
     throw new ParseError(errMsg)
   }
 
+  ignoreComments(root)
+  root.normalize()
+
   if (root.childElementCount === 0 && resoureRef.test(root.textContent ?? '')) {
     // https://developer.android.com/guide/topics/resources/providing-resources#ResourcesFromXml
     return [{ _: root.textContent!, fn: 'reference' }]
@@ -68,6 +71,14 @@ export function androidParsePattern(src: string): Pattern {
   return Array.from(parseInline(spaced))
 }
 
+/** Removes also processing instructions */
+function ignoreComments(root: Element) {
+  for (const node of Array.from(root.childNodes)) {
+    if (node instanceof Element) ignoreComments(node)
+    else if (!(node instanceof Text)) node.remove()
+  }
+}
+
 function* flattenElements(
   root: Element,
   entities: Record<string, string>
-- 
2.43.0


From 2e577fc4ee4b5dd75ceaa46dfcf9d6ce12db66b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:15:36 +0000
Subject: [PATCH 171/190] fix: Require white space, and not only bidi marks,
 between an MF2 literal and function

---
 python/moz/l10n/formats/mf2/message_parser.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/message_parser.py b/python/moz/l10n/formats/mf2/message_parser.py
index 69b5ae8..5188d95 100644
--- a/python/moz/l10n/formats/mf2/message_parser.py
+++ b/python/moz/l10n/formats/mf2/message_parser.py
@@ -258,16 +258,14 @@ class MF2Parser:
     def expression_body(self, ch: str) -> Expression:
         arg: str | VariableRef | None = None
         arg_end = self.pos
-        if ch == "$":
-            arg = self.variable()
-            arg_end = self.pos
-            ch = self.skip_opt_space()
-        elif ch != ":":
-            arg = self.literal()
+        has_space = False
+        if ch != ":":
+            arg = self.variable() if ch == "$" else self.literal()
             arg_end = self.pos
+            has_space = self.req_space()
             ch = self.skip_opt_space()
         if ch == ":":
-            if arg is not None and self.pos == arg_end:
+            if arg is not None and not has_space:
                 raise MF2ParseError(self, "Expected space")
             function = self.identifier(1)
             options = self.options()
-- 
2.43.0


From 5ad3f83e6de17efc0ca27d101b5f1a100daea81b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:19:23 +0000
Subject: [PATCH 172/190] fix: JavaScript XML serialization accepts characters
 that are not allowed in XML

---
 js/src/xml-utils.ts | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/js/src/xml-utils.ts b/js/src/xml-utils.ts
index 7057045..bcc28c6 100644
--- a/js/src/xml-utils.ts
+++ b/js/src/xml-utils.ts
@@ -33,9 +33,13 @@ export function createElement(
   }
 }
 
+const _notXmlChar =
+  /[^\t\n\r\x20-\uD7FF\uE000-\uFFFD\u{10000}-\u{10FFFF}]/u
+
 export function serialize(root: Element) {
   const name = root.tagName
   const str = new XMLSerializer().serializeToString(root)
+  if (_notXmlChar.test(str)) throw 'Characters not allowed in XML'
   if (str.startsWith(`<${name}`) && str.endsWith(`</${name}>`)) {
     return str
       .replace(/^<.*?>/, '')
-- 
2.43.0


From 8a2b7bf7090bb117e27b4102f60d2a3ef6126005 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:21:01 +0000
Subject: [PATCH 173/190] fix: JavaScript androidSerializePattern() accepts
 invalid entity names

---
 js/src/android-serialize.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/android-serialize.ts b/js/src/android-serialize.ts
index 09fd668..c614ff8 100644
--- a/js/src/android-serialize.ts
+++ b/js/src/android-serialize.ts
@@ -135,7 +135,7 @@ function asTextContent(
   onError: (error: SerializeError) => void
 ): string {
   if (part.fn === 'entity') {
-    if (!part.$) {
+    if (!part.$ || !/^[\p{L}_:][\p{L}\p{N}_:.-]*$/u.test(part.$)) {
       const error = `android: Invalid entity: ${JSON.stringify(part)}`
       onError(new SerializeError(error))
     }
-- 
2.43.0


From 12c920aca0693994b1fb2ad4abf746df0b40b596 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:47 +0000
Subject: [PATCH 174/190] fix: keep webext placeholders with the same variable
 name apart

---
 python/moz/l10n/formats/webext/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/formats/webext/parse.py b/python/moz/l10n/formats/webext/parse.py
index dc5372c..b47879f 100644
--- a/python/moz/l10n/formats/webext/parse.py
+++ b/python/moz/l10n/formats/webext/parse.py
@@ -72,6 +72,7 @@ def webext_parse_message(
     )
     pattern: Pattern = []
     declarations: dict[str, Expression] = {}
+    indexed = {f"arg{m[2][1]}" for m in placeholder.finditer(source) if m[2]}
     pos = 0
     for m in placeholder.finditer(source):
         text = source[pos : m.start()]
@@ -104,6 +105,8 @@ def webext_parse_message(
                 ph_name = m[1].replace("@", "_")
                 if ph_name[0].isdigit():
                     ph_name = f"_{ph_name}"
+                while ph_name in declarations or ph_name in indexed:
+                    ph_name += "_"
                 declarations[ph_name] = decl_value
                 ph["_name"] = ph_name
             exp = Expression(VariableRef(ph_name), attributes={"source": m[0]})
-- 
2.43.0


From dd539d499760a4612835f9e7ecec2ce32018832c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:11 +0000
Subject: [PATCH 175/190] fix: webext_serialize_message() mixes up placeholders
 with the same name

---
 python/moz/l10n/formats/webext/serialize.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index 271f118..e72b9e8 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -103,6 +103,7 @@ def webext_serialize_message(
         raise ValueError(f"Unsupported message: {msg}")
     msgstr = ""
     placeholders: dict[str, Any] = {}
+    ph_vars: dict[str, str] = {}
     spans: list[tuple[int, int]] = []
     for part in msg.pattern:
         start = len(msgstr)
@@ -113,7 +114,7 @@ def webext_serialize_message(
             and isinstance(part.arg, VariableRef)
             and part.function is None
         ):
-            ph_name = part.arg.name
+            ph_name = var_name = part.arg.name
             source = part.attributes.get("source", None)
             local = msg.declarations.get(ph_name, None)
             if local:
@@ -139,6 +140,11 @@ def webext_serialize_message(
                     ph_name = source[1:-1]
                 else:
                     source = None
+                prev_name = ph_vars.setdefault(ph_name.lower(), var_name)
+                if prev_name != var_name:
+                    raise ValueError(
+                        f"Conflicting placeholders for {prev_name} and {var_name}"
+                    )
                 if not any(key.lower() == ph_name.lower() for key in placeholders):
                     placeholders[ph_name] = {"content": content}
                     example = (
-- 
2.43.0


From 8ff3238dd0d5c324b124f256886680b975ddc7bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:34 +0000
Subject: [PATCH 176/190] fix: webext_serialize_message() writes invalid
 placeholders as text

---
 python/moz/l10n/formats/webext/serialize.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index e72b9e8..7575779 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -160,8 +160,9 @@ def webext_serialize_message(
             else:
                 arg_name = source if isinstance(source, str) else ph_name
                 msgstr += arg_name if arg_name.startswith("$") else f"${arg_name}"
-            if placeholder.fullmatch(msgstr, start):
-                spans.append((start, len(msgstr)))
+            if not placeholder.fullmatch(msgstr, start):
+                raise ValueError(f"Unsupported placeholder: {part}")
+            spans.append((start, len(msgstr)))
         else:
             raise ValueError(f"Unsupported message part: {part}")
     found = [m.span() for m in placeholder.finditer(msgstr) if not m[3]]
-- 
2.43.0


From e922309136c4acb234bbbe4816351c87cd9d441c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:51:52 +0000
Subject: [PATCH 177/190] fix: L10nConfigPaths.all() limits paths that are also
 included for all locales

---
 python/moz/l10n/paths/config.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index 32669d0..56dc02f 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -301,13 +301,17 @@ class L10nConfigPaths:
         """
         all: dict[tuple[str, str], list[str] | None] = {}
         for key, locales in self._all(format_map):
-            prev = all.get(key, None)
-            if prev is None:
+            if key not in all:
                 all[key] = locales
-            elif locales:
+                continue
+            prev = all[key]
+            if prev and locales:
                 locales_ = list(set(prev).union(locales))
                 locales_.sort()
                 all[key] = locales_
+            else:
+                # At least one entry is for all locales
+                all[key] = None
         return all
 
     def _all(
-- 
2.43.0


From 19120c3d3eb9d7c321d8e5d735eb2b8aca3814fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:06 +0000
Subject: [PATCH 178/190] fix: Xcode substitutions without indices are placed
 by their names

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 98ae65e..b4c6602 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -186,7 +186,9 @@ def parse_xliff_xcstrings(
                                 idx
                                 for idx, el in enumerate(pattern)
                                 if isinstance(el, Expression)
-                                and el.attributes.get("substitution", None) == sub_idx
+                                and isinstance(el.arg, VariableRef)
+                                and el.arg.name == var_name
+                                and "substitution" in el.attributes
                             ),
                             None,
                         )
-- 
2.43.0


From 050ccf40a9c9eab1b7b2fd75b5d782ec491d674b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:31:08 +0000
Subject: [PATCH 179/190] fix: variants of Xcode messages with multiple
 substitutions do not share their parts

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index b4c6602..874a289 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -193,9 +193,9 @@ def parse_xliff_xcstrings(
                             None,
                         )
                         if sub_ph_idx is None:  # no base message
-                            pattern[:] = var_pattern
+                            pattern[:] = deepcopy(var_pattern)
                         else:
-                            pattern[sub_ph_idx : sub_ph_idx + 1] = var_pattern
+                            pattern[sub_ph_idx : sub_ph_idx + 1] = deepcopy(var_pattern)
             for pattern in msg.variants.values():
                 pattern_: Pattern = []
                 last = None
-- 
2.43.0


From 897028d99e625917b8e1eece7b4497929de3d45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:55 +0000
Subject: [PATCH 180/190] fix: JavaScript Fluent selectors and functions are
 resolved through declarations

---
 js/src/fluent-serialize.ts | 52 ++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 22 deletions(-)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index ba493d5..3e97c5f 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -96,7 +96,7 @@ export function fluentSerializeMessage(
   const keys0 = variants[0][0]
   while (keys0.length) {
     const selName = message.sel[keys0.length - 1]
-    const selExpr = message.decl[selName]
+    const selExpr = resolve(message.decl[selName], message.decl)
     const selector =
       isIdentifier(selExpr.$) &&
       !selExpr.opt &&
@@ -219,32 +219,40 @@ export function fluentSerializePattern(
 
 const placeable = (text: string) => `{ ${stringLiteral(text)} }`
 
+/** Resolve a variable reference by its declarations. */
+function resolve<T extends Expression | Markup>(
+  expr: T,
+  declarations: Record<string, Expression>
+): T | Expression {
+  const getDeclaration = (name: string | undefined) =>
+    name && Object.hasOwn(declarations, name) ? declarations[name] : undefined
+  let res: T | Expression = expr
+  let decl = getDeclaration(expr.$)
+  while (decl) {
+    // In Fluent, these are plain variables
+    const isPlain =
+      (decl.fn === 'number' || decl.fn === 'string') &&
+      !decl.opt &&
+      !decl.attr?.['fluent-fn']
+    if (decl.fn && res.fn && decl.fn !== res.fn && !isPlain) {
+      const error = `fluent: Unsupported placeholder ${JSON.stringify(res)} with declaration ${JSON.stringify(decl)}`
+      throw new SerializeError(error)
+    }
+    const v0 = res.$
+    const v1 = decl.$
+    res = res.fn ? ({ ...res, _: decl._, $: v1 } as Expression) : decl
+    if (v0 === v1) break
+    else decl = getDeclaration(v1)
+  }
+  return res
+}
+
 function expression(
   expr: Expression | Markup,
   declarations: Record<string, Expression> | undefined,
   isSelector: boolean
 ): string {
-  if (declarations && expr.$) {
-    const getDeclaration = (name: string) =>
-      Object.hasOwn(declarations, name) ? declarations[name] : undefined
-    let decl = getDeclaration(expr.$)
-    while (decl) {
-      // In Fluent, these are plain variables
-      const isPlain =
-        (decl.fn === 'number' || decl.fn === 'string') &&
-        !decl.opt &&
-        !decl.attr?.['fluent-fn']
-      if (decl.fn && expr.fn && decl.fn !== expr.fn && !isPlain) {
-        const error = `fluent: Unsupported placeholder ${JSON.stringify(expr)} with declaration ${JSON.stringify(decl)}`
-        throw new SerializeError(error)
-      }
-      const v0: string = expr.$!
-      const v1: string = decl.$!
-      expr = expr.fn ? ({ ...expr, $: v1 } as Expression) : decl
-      if (v0 === v1) break
-      else decl = getDeclaration(v1)
-    }
-  }
+  if (declarations) expr = resolve(expr, declarations)
 
   let arg: string | undefined
   if ('_' in expr && expr._ !== undefined) {
-- 
2.43.0


From 2a6b5d584030cfed228ba2e29ec18d1eeafb4483 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:46 +0000
Subject: [PATCH 181/190] fix: variable names of Android placeholders never
 start with a digit or a dash

---
 python/moz/l10n/formats/android/parse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index c31a625..c690061 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -569,7 +569,7 @@ def parse_inline(
 
 arg_idx = compile(r"%([1-9]\$)?")
 not_name_char = compile(f"[^{xml_name_start}{xml_name_rest}]")
-not_name_start = compile(f"[^{xml_name_start}]")
+not_name_start = compile(f"[^{xml_name_start}]+")
 
 
 def get_var_name(src: str) -> str:
@@ -578,6 +578,7 @@ def get_var_name(src: str) -> str:
     if pm:
         return f"arg{pm[1][0]}" if pm[1] else "arg"
     name = not_name_char.sub("", src)
-    if not_name_start.match(name):
-        name = name[1:]
+    start = not_name_start.match(name)
+    if start:
+        name = name[start.end() :]
     return name or "arg"
-- 
2.43.0


From 7520aa0d320a650e562c24b1e130e7495859b572 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:19:49 +0000
Subject: [PATCH 182/190] fix: JavaScript variable names of Android
 placeholders never start with a digit or a dash

---
 js/src/android-parse.ts | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/js/src/android-parse.ts b/js/src/android-parse.ts
index d4dcc61..daa0bd6 100644
--- a/js/src/android-parse.ts
+++ b/js/src/android-parse.ts
@@ -327,10 +327,10 @@ function* parseInline(
 
 // Exclude : for compatibility with MF2
 const _notNameStart =
-  /^[^A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\u{010000}-\u{0EFFFF}]/u
+  /^[^A-Z_a-z\xC0-\xD6\xD8-\xF6\xF8-\u02FF\u0370-\u037D\u037F-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFD\u{010000}-\u{0EFFFF}]+/u
 const _notNameChar = new RegExp(
   // eslint-disable-next-line no-misleading-character-class
-  _notNameStart.source.slice(1, -1) +
+  _notNameStart.source.slice(1, -2) +
     '.0-9\\-\\xB7\\u0300-\\u036F\\u203F-\\u2040]',
   'gu'
 )
@@ -339,7 +339,6 @@ const _notNameChar = new RegExp(
 function varName(src: string): string {
   const printf = src.match(/^%([1-9]\$)?/)
   if (printf) return printf[1] ? `arg${printf[1][0]}` : 'arg'
-  let name = src.replace(_notNameChar, '')
-  if (_notNameStart.test(name)) name = name.substring(1)
-  return name || 'arg'
+  const name = src.replace(_notNameChar, '')
+  return name.replace(_notNameStart, '') || 'arg'
 }
-- 
2.43.0


From e4390c2f80cb5325714b0461b07bc3db259ffeca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:52 +0000
Subject: [PATCH 183/190] fix: only the first of Fluent variants with the same
 key is used

---
 python/moz/l10n/formats/fluent/parse.py | 23 ++++++++++++++++++-----
 1 file changed, 18 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 8f0b15c..1a149be 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -252,14 +252,14 @@ def message(ftl_pattern: ftl.Pattern) -> Message:
                 msg_sel = next(sd[0] for sd in sel_data if el.selector in sd[1])
                 idx = sel_expressions.index(msg_sel)
                 prev_filt = filter[idx]
-                el_keys = [variant_key(v) for v in el.variants]
-                for v, v_key in zip(el.variants, el_keys):
+                el_variants = select_variants(el)
+                for v_key, v in el_variants.items():
                     # The default also matches keys that are only used by
                     # other select expressions with the same selector.
                     filter[idx] = {
                         key: key == v_key or prev_filt.get(key, False)
                         for key in prev_filt or key_lists[idx]
-                        if key == v_key or (v.default and key not in el_keys)
+                        if key == v_key or (v.default and key not in el_variants)
                     }
                     if filter[idx]:
                         add_pattern(v.value)
@@ -362,6 +362,18 @@ def variant_key(v: ftl.Variant) -> Key:
     return (name, is_numeric, v.default)
 
 
+def select_variants(sel: ftl.SelectExpression) -> dict[Key, ftl.Variant]:
+    "Only the first of the variants with the same key may be selected."
+    res: dict[Key, ftl.Variant] = {}
+    seen: set[str] = set()
+    for v in sel.variants:
+        key = variant_key(v)
+        if v.default or key[0] not in seen:
+            res[key] = v
+        seen.add(key[0])
+    return res
+
+
 def message_key(key: Key) -> str | CatchallKey:
     name, _, is_default = key
     return CatchallKey(name) if is_default else name
@@ -376,7 +388,8 @@ def find_selectors(
             el.expression, ftl.SelectExpression
         ):
             ftl_sel = el.expression.selector
-            keys = [variant_key(v) for v in el.expression.variants]
+            variants = select_variants(el.expression)
+            keys = list(variants)
             msg_sel = select_expression(ftl_sel, keys)
             prev = next((x for x in result if x[0] == msg_sel), None)
             if prev:
@@ -385,7 +398,7 @@ def find_selectors(
                 key_list += keys
             else:
                 result.append((msg_sel, [ftl_sel], keys))
-            for v in el.expression.variants:
+            for v in variants.values():
                 find_selectors(v.value, result)
     return result
 
-- 
2.43.0


From 11a946759bc90e853b0084dfd9f7bb5c5ab62a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:57 +0000
Subject: [PATCH 184/190] fix: only the first of JavaScript Fluent variants
 with the same key is used

---
 js/src/fluent-parse.ts | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/js/src/fluent-parse.ts b/js/src/fluent-parse.ts
index a597003..e3a8fd7 100644
--- a/js/src/fluent-parse.ts
+++ b/js/src/fluent-parse.ts
@@ -137,14 +137,13 @@ function message(ftlPattern: FTL.Pattern): Message {
           row.ftlSelectors.includes(ftlSel)
         )
         const prevFilt = filter[idx]
-        const elKeys = new Set(el.variants.map((v) => keyId(variantKey(v))))
-        for (const v of el.variants) {
-          const vk = keyId(variantKey(v))
+        const elVariants = selectVariants(el)
+        for (const [vk, v] of elVariants) {
           // The default also matches keys that are only used by
           // other select expressions with the same selector.
           const next = new Map<string, boolean>()
           for (const key of prevFilt?.keys() ?? selKeys[idx].map(keyId)) {
-            if (key === vk || (v.default && !elKeys.has(key))) {
+            if (key === vk || (v.default && !elVariants.has(key))) {
               next.set(key, key === vk || (prevFilt?.get(key) ?? false))
             }
           }
@@ -281,7 +280,8 @@ function findSelectors(
       el.expression instanceof FTL.SelectExpression
     ) {
       const ftlSel = el.expression.selector
-      const keys = el.expression.variants.map(variantKey)
+      const variants = [...selectVariants(el.expression).values()]
+      const keys = variants.map(variantKey)
       const msgSel = selectExpression(ftlSel, keys)
       let foundPrev = false
       for (const row of result) {
@@ -294,12 +294,24 @@ function findSelectors(
       if (!foundPrev) {
         result.push({ msgSel, ftlSelectors: [ftlSel], keys })
       }
-      for (const v of el.expression.variants) findSelectors(v.value, result)
+      for (const v of variants) findSelectors(v.value, result)
     }
   }
   return result
 }
 
+/** Only the first of the variants with the same key may be selected. */
+function selectVariants(sel: FTL.SelectExpression): Map<string, FTL.Variant> {
+  const res = new Map<string, FTL.Variant>()
+  const seen = new Set<string>()
+  for (const v of sel.variants) {
+    const key = variantKey(v)
+    if (v.default || !seen.has(key.name)) res.set(keyId(key), v)
+    seen.add(key.name)
+  }
+  return res
+}
+
 const uniqueKeys = ({ keys }: SelectorResultRow): Key[] => [
   ...new Map(keys.map((key) => [keyId(key), key])).values()
 ]
-- 
2.43.0


From 1d30213b0a527de6ea2e6b1a0db593ebd862c1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:13 +0000
Subject: [PATCH 185/190] fix: Fluent select expressions may be within nested
 placeables

---
 python/moz/l10n/formats/fluent/parse.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 1a149be..1910a17 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -383,12 +383,13 @@ def find_selectors(
     pattern: ftl.Pattern,
     result: list[tuple[Expression, list[ftl.InlineExpression], list[Key]]],
 ) -> list[tuple[Expression, list[ftl.InlineExpression], list[Key]]]:
+    el: ftl.TextElement | ftl.Placeable | ftl.InlineExpression | ftl.SelectExpression
     for el in pattern.elements:
-        if isinstance(el, ftl.Placeable) and isinstance(
-            el.expression, ftl.SelectExpression
-        ):
-            ftl_sel = el.expression.selector
-            variants = select_variants(el.expression)
+        while isinstance(el, ftl.Placeable):
+            el = el.expression
+        if isinstance(el, ftl.SelectExpression):
+            ftl_sel = el.selector
+            variants = select_variants(el)
             keys = list(variants)
             msg_sel = select_expression(ftl_sel, keys)
             prev = next((x for x in result if x[0] == msg_sel), None)
-- 
2.43.0


From 804c061da45342cbb0ff4afa68a2ddf2135cbb71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:41:18 +0000
Subject: [PATCH 186/190] fix: JavaScript Fluent select expressions may be
 within nested placeables

---
 js/src/fluent-parse.ts | 17 ++++++++++-------
 1 file changed, 10 insertions(+), 7 deletions(-)

diff --git a/js/src/fluent-parse.ts b/js/src/fluent-parse.ts
index e3a8fd7..dcbb67d 100644
--- a/js/src/fluent-parse.ts
+++ b/js/src/fluent-parse.ts
@@ -274,13 +274,16 @@ function findSelectors(
   pattern: FTL.Pattern,
   result: SelectorResultRow[]
 ): SelectorResultRow[] {
-  for (const el of pattern.elements) {
-    if (
-      el instanceof FTL.Placeable &&
-      el.expression instanceof FTL.SelectExpression
-    ) {
-      const ftlSel = el.expression.selector
-      const variants = [...selectVariants(el.expression).values()]
+  let el:
+    | FTL.TextElement
+    | FTL.Placeable
+    | FTL.InlineExpression
+    | FTL.SelectExpression
+  for (el of pattern.elements) {
+    while (el instanceof FTL.Placeable) el = el.expression
+    if (el instanceof FTL.SelectExpression) {
+      const ftlSel = el.selector
+      const variants = [...selectVariants(el).values()]
       const keys = variants.map(variantKey)
       const msgSel = selectExpression(ftlSel, keys)
       let foundPrev = false
-- 
2.43.0


From 67a0b654b1a5d3599f0d489b4c357876913ec0b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:45 +0000
Subject: [PATCH 187/190] fix: a Fluent default variant is after another
 variant with the same key

---
 python/moz/l10n/formats/fluent/serialize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index ca2c00f..d4cf6b0 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -361,6 +361,10 @@ def fluent_astify_message(
         for sel_exp in sel_exps.values():
             if sum(var.default for var in sel_exp.variants) != 1:
                 raise ValueError(f"Missing default variant for selector {selector}")
+            default = next(var for var in sel_exp.variants if var.default)
+            if sum(var.key.equals(default.key) for var in sel_exp.variants) > 1:
+                # Only the first variant with a matching key is used
+                sel_exp.variants.sort(key=lambda var: var.default)
     if len(variants) != 1:
         raise ValueError(f"Error resolving select message variants (n={len(variants)})")
     return variants[0][1]
-- 
2.43.0


From 7278a4482d0fb25d9f23f9dbd7e190e40d8cacc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:50:49 +0000
Subject: [PATCH 188/190] fix: a JavaScript Fluent default variant is after
 another variant with the same key

---
 js/src/fluent-serialize.ts | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index 3e97c5f..48463eb 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -107,11 +107,17 @@ export function fluentSerializeMessage(
     let baseKeys = ''
     let selPattern: string[] | null = null
     let defaults = 0
+    let selKeys: (string | CatchallKey)[] = []
     const closeSelect = (selPattern: string[]) => {
       if (defaults !== 1) {
         const error = `fluent: Exactly one default variant is required for ${selector}`
         throw new SerializeError(error)
       }
+      const idx = selKeys.findIndex((key) => typeof key !== 'string')
+      if (selKeys.includes((selKeys[idx] as CatchallKey)['*'] || other)) {
+        // Only the first variant with a matching key is used
+        selPattern.push(...selPattern.splice(idx + 1, 1))
+      }
       selPattern.push('}')
     }
     let i = 0
@@ -126,12 +132,14 @@ export function fluentSerializeMessage(
       } else {
         if (selPattern) closeSelect(selPattern)
         defaults = 0
+        selKeys = []
         baseKeys = jsonKeys
         selPattern = pattern //ftl.SelectExpression(selector.clone(), [ftl_variant])
-        selPattern.splice(0, selPattern.length, `{ ${selector} ->\n${varBody}`)
+        selPattern.splice(0, selPattern.length, `{ ${selector} ->\n`, varBody)
         i += 1
       }
       if (typeof key !== 'string') defaults += 1
+      selKeys.push(key)
     }
     if (selPattern) closeSelect(selPattern)
   }
-- 
2.43.0


From fa6d1f3696d32e6b4db315dd3919c8f3c0e2a011 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:25:41 +0000
Subject: [PATCH 189/190] fix: a WebExtension placeholder without content is
 rejected, not serialized

---
 python/moz/l10n/formats/webext/serialize.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index 7575779..32e4edc 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -160,7 +160,8 @@ def webext_serialize_message(
             else:
                 arg_name = source if isinstance(source, str) else ph_name
                 msgstr += arg_name if arg_name.startswith("$") else f"${arg_name}"
-            if not placeholder.fullmatch(msgstr, start):
+            match = placeholder.fullmatch(msgstr, start)
+            if not match or (match[1] and local is None):
                 raise ValueError(f"Unsupported placeholder: {part}")
             spans.append((start, len(msgstr)))
         else:
-- 
2.43.0


From ea68a6b83000a87c3139793094684de2a913c984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:30:56 +0000
Subject: [PATCH 190/190] fix: JavaScript Fluent serialization drops the
 options of a declaration with the same function

---
 js/src/fluent-serialize.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index 48463eb..ccff354 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -248,7 +248,13 @@ function resolve<T extends Expression | Markup>(
     }
     const v0 = res.$
     const v1 = decl.$
-    res = res.fn ? ({ ...res, _: decl._, $: v1 } as Expression) : decl
+    if (res.fn) {
+      const opt =
+        decl.fn === res.fn && decl.opt ? { ...decl.opt, ...res.opt } : res.opt
+      res = { ...res, _: decl._, $: v1, opt } as Expression
+    } else {
+      res = decl
+    }
     if (v0 === v1) break
     else decl = getDeclaration(v1)
   }
-- 
2.43.0

