From a6c75e518aa207f5d1652b144266f30166abfedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:47 +0000
Subject: [PATCH 001/102] fix: properties_parse_message() placeholder parsing
 used the source with escapes left in

---
 python/moz/l10n/formats/properties/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index 10f5881..13efe71 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -151,7 +151,7 @@ def properties_parse_message(
     if kind != LineKind.VALUE or not all(kind == LineKind.EMPTY for kind, _, _ in rest):
         raise ValueError("Source is not a .properties value")
     if printf_placeholders:
-        return PatternMessage(list(parse_printf_pattern(source)))
+        return PatternMessage(list(parse_printf_pattern(value)))
     return PatternMessage([value])
 
 
-- 
2.43.0


From 79df3b23cdda538527676b78b81ac23c1bbe927f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:48:47 +0000
Subject: [PATCH 002/102] fix: escape comment sigils at the start of
 .properties keys

---
 python/moz/l10n/formats/properties/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index 83a2075..e0d767a 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -109,6 +109,8 @@ def properties_serialize(
                 key = id_prefix + ".".join(entry.id)
                 key = escape_chars(key, ensure_ascii)
                 key = key.translate(special_key_trans)
+                if key.startswith(("#", "!")):
+                    key = "\\" + key  # would otherwise start a comment
 
                 value: str
                 msg = entry.value
-- 
2.43.0


From 21e1708f21b69ec0b2a22713db444921acb0ae5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:01 +0000
Subject: [PATCH 003/102] fix: read and write non-BMP .properties escapes as
 surrogate pairs

---
 python/moz/l10n/formats/properties/parse.py     | 7 ++++++-
 python/moz/l10n/formats/properties/serialize.py | 4 +++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index 13efe71..df3cb38 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -30,12 +30,17 @@ class LineKind(Enum):
     VALUE = 3
 
 
-esc_re = compile("\\\\(u[0-9A-Fa-f]{1,4}|.)")
+esc_re = compile(
+    "\\\\(u[Dd][89ABab][0-9A-Fa-f]{2}\\\\u[Dd][C-Fc-f][0-9A-Fa-f]{2}|u[0-9A-Fa-f]{1,4}|.)"
+)
 
 
 def esc_parse(match: Match[str]) -> str:
     esc = match.group(1)
     if len(esc) > 1 and esc[0] == "u":
+        if len(esc) > 5:
+            # UTF-16 surrogate pair
+            return bytes.fromhex(esc[1:5] + esc[7:]).decode("utf-16-be")
         n = int(esc[1:], 16)
         return chr(n)
     elif esc == "t":
diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index e0d767a..d6d890f 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -37,7 +37,9 @@ def encode_char(m: Match[str]) -> str:
         return r"\f"
     elif ch == "\r":
         return r"\r"
-    return f"\\u{ord(ch):04x}"
+    # Escapes are UTF-16 code units
+    utf16 = ch.encode("utf-16-be", "surrogatepass").hex()
+    return "".join(f"\\u{utf16[i : i + 4]}" for i in range(0, len(utf16), 4))
 
 
 def escape_chars(value: str, ensure_ascii: bool) -> str:
-- 
2.43.0


From baa0c962c03632242918dfbab720e47ca50cb53d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:49:01 +0000
Subject: [PATCH 004/102] fix: trim trailing whitespace from .properties
 comment lines

---
 python/moz/l10n/formats/properties/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index df3cb38..095997b 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -237,7 +237,7 @@ class PropertiesParser:
                     break
             end = self.pos = start + idx + 1
             self.nl()
-            return LineKind.COMMENT, lp, self.source[start:end]
+            return LineKind.COMMENT, lp, self.source[start:end].rstrip()
 
         # key
         start = self.pos
-- 
2.43.0


From dc4409fe76f0783720824fe25227d13e784301cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 005/102] fix: accept consecutive external entity includes in
 DTD files

---
 python/moz/l10n/formats/dtd/parse.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/dtd/parse.py b/python/moz/l10n/formats/dtd/parse.py
index fb6aae3..2e2666a 100644
--- a/python/moz/l10n/formats/dtd/parse.py
+++ b/python/moz/l10n/formats/dtd/parse.py
@@ -67,10 +67,13 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
     resource = Resource(Format.dtd, [Section((), entries)])
 
     def handle_other_content(entry: str) -> None:
-        if sm := re_system_include.fullmatch(entry):
+        pos = 0
+        while sm := re_system_include.match(entry, pos):
             resource.meta.append(Metadata(sm[1], sm[2][1:-1]))
-        elif entry and not entry.isspace():
-            raise ValueError(f"Unexpected content in DTD: {entry}")
+            pos = sm.end()
+        rest = entry[pos:]
+        if rest and not rest.isspace():
+            raise ValueError(f"Unexpected content in DTD: {rest}")
 
     pos = 0
     at_newline = True
-- 
2.43.0


From af3dda92089e1c31af1bba58272d7b34de480f06 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:52:53 +0000
Subject: [PATCH 006/102] fix: keep commented-out DTD entities as standalone
 comments also at line ends

---
 python/moz/l10n/formats/dtd/parse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/dtd/parse.py b/python/moz/l10n/formats/dtd/parse.py
index 2e2666a..184259e 100644
--- a/python/moz/l10n/formats/dtd/parse.py
+++ b/python/moz/l10n/formats/dtd/parse.py
@@ -103,14 +103,14 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
         nc = match.group(1).strip().replace("\r\n", "\n")
         comment = f"{comment}\n{nc}" if comment else nc
         if comment:
-            if not at_newline and has_prev_entries:
+            if re_entity.search(comment):
+                entries.append(Comment(comment))
+                comment = ""
+            elif not at_newline and has_prev_entries:
                 prev = entries[-1]
                 pc = prev.comment
                 prev.comment = f"{pc}\n{comment}" if pc else comment
                 comment = ""
-            if re_entity.search(comment):
-                entries.append(Comment(comment))
-                comment = ""
         pos = match.end(0)
     if len(source) > pos:
         for entry in dtd_iter(source, pos):
-- 
2.43.0


From 39a2720869ab2384bd4b7d42fe96c31571f5c6bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:53:11 +0000
Subject: [PATCH 007/102] fix: keep the last DTD comment standalone when an
 empty line follows it

---
 python/moz/l10n/formats/dtd/parse.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/python/moz/l10n/formats/dtd/parse.py b/python/moz/l10n/formats/dtd/parse.py
index 184259e..c7a109b 100644
--- a/python/moz/l10n/formats/dtd/parse.py
+++ b/python/moz/l10n/formats/dtd/parse.py
@@ -116,6 +116,12 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
         for entry in dtd_iter(source, pos):
             if isinstance(entry, str):
                 handle_other_content(entry)
+                if comment and entry.count("\n") > 1:
+                    if entries or resource.comment:
+                        entries.append(Comment(comment))
+                    else:
+                        resource.comment = comment
+                    comment = ""
             else:
                 if comment:
                     entry.comment = comment
-- 
2.43.0


From 37e7ec424ed949d80c2cb7f8258eff9400e7d8e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:32 +0000
Subject: [PATCH 008/102] fix: do not split .inc lines at characters other than
 line breaks

---
 python/moz/l10n/formats/inc/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/inc/parse.py b/python/moz/l10n/formats/inc/parse.py
index 0c3c8b1..c7820b1 100644
--- a/python/moz/l10n/formats/inc/parse.py
+++ b/python/moz/l10n/formats/inc/parse.py
@@ -14,7 +14,7 @@
 
 from __future__ import annotations
 
-from re import compile
+from re import compile, split
 
 from ...model import Comment, Entry, Message, PatternMessage, Resource, Section
 from .. import Format
@@ -34,7 +34,7 @@ def inc_parse(source: str | bytes) -> Resource[Message]:
     comment: str = ""
     if not isinstance(source, str):
         source = str(source, "utf8")
-    for line in source.splitlines():
+    for line in split(r"\r\n?|\n", source):
         if not line or line.isspace():
             if comment:
                 entries.append(Comment(comment))
-- 
2.43.0


From 9929a512324da531fa36ebde462fc6897c57452d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:32 +0000
Subject: [PATCH 009/102] fix: keep empty lines within .inc comments

---
 python/moz/l10n/formats/inc/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/inc/parse.py b/python/moz/l10n/formats/inc/parse.py
index c7820b1..4cfbbd1 100644
--- a/python/moz/l10n/formats/inc/parse.py
+++ b/python/moz/l10n/formats/inc/parse.py
@@ -39,7 +39,7 @@ def inc_parse(source: str | bytes) -> Resource[Message]:
             if comment:
                 entries.append(Comment(comment))
                 comment = ""
-        elif line.startswith("# "):
+        elif line.startswith("# ") or line == "#":
             nc = line[2:].lstrip()
             if nc.startswith("#"):
                 nc = line
-- 
2.43.0


From 2fa3a2ff08cf9985c2326dfaa16035c0797f5265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:54:32 +0000
Subject: [PATCH 010/102] fix: refuse to serialize .inc identifiers that would
 be read as directives

---
 python/moz/l10n/formats/inc/serialize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/inc/serialize.py b/python/moz/l10n/formats/inc/serialize.py
index 2d12c58..f48aaf5 100644
--- a/python/moz/l10n/formats/inc/serialize.py
+++ b/python/moz/l10n/formats/inc/serialize.py
@@ -15,10 +15,13 @@
 from __future__ import annotations
 
 from collections.abc import Iterator
+from re import compile
 from typing import Any
 
 from ...model import Entry, Message, PatternMessage, Resource
 
+re_name = compile(r"\w+")
+
 
 def inc_serialize(
     resource: Resource[str] | Resource[Message],
@@ -58,7 +61,7 @@ def inc_serialize(
         for entry in section.entries:
             if isinstance(entry, Entry):
                 yield from comment(entry.comment, entry.meta, False)
-                if len(entry.id) != 1:
+                if len(entry.id) != 1 or not re_name.fullmatch(entry.id[0]):
                     raise ValueError(f"Unsupported identifier: {entry.id}")
                 msg = entry.value
                 if isinstance(msg, str):
-- 
2.43.0


From ad9444c38cf1dfcbd72117434878771ed56a1ce2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:42 +0000
Subject: [PATCH 011/102] fix: do not split .ini values at characters other
 than newlines

---
 python/moz/l10n/formats/ini/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/ini/serialize.py b/python/moz/l10n/formats/ini/serialize.py
index 6be53ae..1041c87 100644
--- a/python/moz/l10n/formats/ini/serialize.py
+++ b/python/moz/l10n/formats/ini/serialize.py
@@ -80,7 +80,7 @@ def ini_serialize(
                     value = "".join(msg.pattern)  # type: ignore[arg-type]
                 else:
                     raise ValueError(f"Unsupported message for {entry.id}: {msg}")
-                lines = value.rstrip().splitlines()
+                lines = value.rstrip().split("\n")
                 yield (
                     f"{id_str(entry.id)}={lines.pop(0) if lines else ''}".rstrip()
                     + "\n"
-- 
2.43.0


From 25fc560691804fcbde79ed2bde751ddd1d4b91d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:42 +0000
Subject: [PATCH 012/102] fix: do not parse .ini keys that start with rem as
 comments

---
 python/moz/l10n/formats/ini/parse.py | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/ini/parse.py b/python/moz/l10n/formats/ini/parse.py
index 7a96ac8..7ced3d8 100644
--- a/python/moz/l10n/formats/ini/parse.py
+++ b/python/moz/l10n/formats/ini/parse.py
@@ -16,6 +16,7 @@ from __future__ import annotations
 
 from collections.abc import Generator
 from io import StringIO
+from re import compile
 from typing import TextIO
 
 from iniparse import ini  # type: ignore[import-untyped]
@@ -24,6 +25,21 @@ from ...model import Comment, Entry, Message, PatternMessage, Resource, Section
 from .. import Format
 
 
+class IniCommentLine(ini.CommentLine):  # type: ignore[misc]
+    """
+    Unlike in iniparse, a key such as `remove` does not start a REM comment.
+    """
+
+    regex = compile(r"^(?P<csep>[;#]|[rR][eE][mM](?=\s|$))(?P<comment>.*)$")
+
+
+class IniConfig(ini.INIConfig):  # type: ignore[misc]
+    _line_types = [
+        IniCommentLine if lt is ini.CommentLine else lt
+        for lt in ini.INIConfig._line_types
+    ]
+
+
 def ini_parse(source: TextIO | str | bytes) -> Resource[Message]:
     """
     Parse an .ini file into a message resource.
@@ -36,7 +52,7 @@ def ini_parse(source: TextIO | str | bytes) -> Resource[Message]:
         file = StringIO(str(source, "utf8"))
     else:
         file = source
-    cfg = ini.INIConfig(file, optionxformvalue=None)
+    cfg = IniConfig(file, optionxformvalue=None)
 
     resource = Resource[Message](Format.ini, [])
     section: Section[Message] | None = None
-- 
2.43.0


From eef038a43002b09a7b7a89c4c8002a341308b3a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:55:55 +0000
Subject: [PATCH 013/102] fix: refuse to serialize .ini identifiers that would
 be read as comments

---
 python/moz/l10n/formats/ini/serialize.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/ini/serialize.py b/python/moz/l10n/formats/ini/serialize.py
index 1041c87..d4935bd 100644
--- a/python/moz/l10n/formats/ini/serialize.py
+++ b/python/moz/l10n/formats/ini/serialize.py
@@ -80,11 +80,11 @@ def ini_serialize(
                     value = "".join(msg.pattern)  # type: ignore[arg-type]
                 else:
                     raise ValueError(f"Unsupported message for {entry.id}: {msg}")
+                key = id_str(entry.id)
+                if search(r"^[;#]|^(?i:rem)\s", key):
+                    raise ValueError(f"Unsupported character in identifier: {entry.id}")
                 lines = value.rstrip().split("\n")
-                yield (
-                    f"{id_str(entry.id)}={lines.pop(0) if lines else ''}".rstrip()
-                    + "\n"
-                )
+                yield f"{key}={lines.pop(0) if lines else ''}".rstrip() + "\n"
                 for line in lines:
                     ls = line.rstrip()
                     yield f"  {ls}\n" if ls else "\n"
-- 
2.43.0


From 63b508e5c6a505d27c7c1917d98e7f1940ecb79c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 15:57:25 +0000
Subject: [PATCH 014/102] fix: do not drop JSON values nested under another
 value's key

---
 python/moz/l10n/formats/plain_json/serialize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/moz/l10n/formats/plain_json/serialize.py b/python/moz/l10n/formats/plain_json/serialize.py
index b72680f..542f50b 100644
--- a/python/moz/l10n/formats/plain_json/serialize.py
+++ b/python/moz/l10n/formats/plain_json/serialize.py
@@ -71,6 +71,10 @@ def plain_json_serialize(
                 parent = section_parent
                 for part in entry.id[:-1]:
                     parent = parent[part]
+                if isinstance(parent.get(entry.id[-1], None), dict):
+                    raise ValueError(
+                        f"Identifier is also a prefix: {section.id + entry.id}"
+                    )
                 parent[entry.id[-1]] = value
             else:
                 check(entry.comment, None)
-- 
2.43.0


From 8d01a9977d8af95a8470a3903b82b89fa36af387 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:48 +0000
Subject: [PATCH 015/102] fix: keep an empty gettext msgctxt, which differs
 from having none

---
 python/moz/l10n/formats/gettext/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/gettext/parse.py b/python/moz/l10n/formats/gettext/parse.py
index 45b74ef..5ba80b3 100644
--- a/python/moz/l10n/formats/gettext/parse.py
+++ b/python/moz/l10n/formats/gettext/parse.py
@@ -98,7 +98,7 @@ def gettext_parse(
             )
         else:
             value = PatternMessage([pe.msgstr])
-        id = (pe.msgid, pe.msgctxt) if pe.msgctxt else (pe.msgid,)
+        id = (pe.msgid,) if pe.msgctxt is None else (pe.msgid, pe.msgctxt)
         entries.append(Entry(id, value, comment=pe.comment, meta=meta))
     return Resource(Format.gettext, [Section((), entries)], res_comment, res_meta)
 
-- 
2.43.0


From a4526fd6b0cf1d0e5480d06ff6209f1bf41c6408 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:48 +0000
Subject: [PATCH 016/102] fix: do not append a colon to gettext references
 without a line number on each round trip

---
 python/moz/l10n/formats/gettext/serialize.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index ca065f2..25a29fe 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -126,9 +126,11 @@ def gettext_serialize(
                             cs = (m.value).lstrip("\n").rstrip()
                             pe.tcomment = f"{pe.tcomment}\n{cs}" if pe.tcomment else cs
                         elif m.key == "reference":
-                            pos = m.value.split(":", 1)
+                            file, _, line = m.value.rpartition(":")
                             pe.occurrences.append(
-                                (pos[0], pos[1]) if len(pos) == 2 else (m.value, "")
+                                (file, line)
+                                if file and (not line or line.isdigit())
+                                else (m.value, "")
                             )
                         elif m.key == "flag":
                             pe.flags.append(m.value)
-- 
2.43.0


From 8718da1df22a78134006373062daf1e58cb21b1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:12:48 +0000
Subject: [PATCH 017/102] fix: refuse gettext identifiers with parts that would
 be dropped

---
 python/moz/l10n/formats/gettext/serialize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index 25a29fe..9a3b4ff 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -64,8 +64,12 @@ def gettext_serialize(
             raise ValueError("Section comments are not supported")
         if section.meta:
             raise ValueError("Section metadata is not supported")
+        if section.id:
+            raise ValueError(f"Section identifiers not supported: {section.id}")
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if len(entry.id) not in (1, 2):
+                    raise ValueError(f"Unsupported message id: {entry.id}")
                 context = entry.id[1] if len(entry.id) == 2 else None
                 pe = POEntry(msgctxt=context, msgid=entry.id[0])
                 msg = entry.value
-- 
2.43.0


From 63f029c3cb2016d05fc51741dd1e75d6422d7c01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:27 +0000
Subject: [PATCH 018/102] fix: do not drop gettext plural variants beyond the
 header's nplurals, or with unknown keys

---
 python/moz/l10n/formats/gettext/serialize.py | 22 +++++++++++---------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index 9a3b4ff..b2c989f 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -15,7 +15,7 @@
 from __future__ import annotations
 
 from collections.abc import Iterator, Sequence
-from re import match
+from re import fullmatch, match
 from typing import cast
 
 from polib import POEntry, POFile
@@ -103,16 +103,18 @@ def gettext_serialize(
                         )
                         for keys, pattern in msg.variants.items()
                     )
+                    forms: dict[int, str] = {}
+                    for key, pattern in variants:
+                        if key in plurals if plurals else fullmatch("[0-9]", key):
+                            idx = plurals.index(key) if plurals else int(key)
+                        else:
+                            raise ValueError(
+                                f"Unsupported plural key for {entry.id}: {key}"
+                            )
+                        forms.setdefault(idx, pattern)
                     pe.msgstr_plural = {
-                        idx: next(
-                            (
-                                pattern
-                                for key, pattern in variants
-                                if key == (plurals[idx] if plurals else str(idx))
-                            ),
-                            "",
-                        )
-                        for idx in range(nplurals)
+                        idx: forms.get(idx, "")
+                        for idx in range(max([nplurals, *(i + 1 for i in forms)]))
                     }
                 else:
                     raise ValueError(
-- 
2.43.0


From 7ee2b9c3ce6bc0b0cab2e7f48e229edd7fe35279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:14:55 +0000
Subject: [PATCH 019/102] fix: keep gettext header comment lines that start
 with a comma or colon

---
 python/moz/l10n/formats/gettext/serialize.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index b2c989f..663678e 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -47,10 +47,14 @@ def gettext_serialize(
     """
 
     pf = POFile(wrapwidth=wrapwidth)
+    header = ""
     if not trim_comments and resource.comment and not resource.comment.isspace():
-        pf.header = resource.comment.rstrip() + "\n"
+        header = resource.comment.rstrip() + "\n"
     pf.metadata = {m.key: m.value for m in resource.meta}
-    yield str(pf)
+    # polib would turn comment lines starting with , or : into flags or references.
+    # With an empty pf.header, str(pf) starts with a line containing only #.
+    header_lines = header.split("\n")[:-1]
+    yield "".join(f"# {line}\n" if line else "#\n" for line in header_lines) + str(pf)
 
     nplurals = 1
     plural_forms = pf.metadata.get("Plural-Forms", None)
-- 
2.43.0


From 391d2755e0cf746efc9d70baced4a9428fc24d24 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 020/102] fix: do not modify the placeholders passed to
 webext_parse_message()

---
 python/moz/l10n/formats/webext/parse.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/webext/parse.py b/python/moz/l10n/formats/webext/parse.py
index 39ffc8b..d65f008 100644
--- a/python/moz/l10n/formats/webext/parse.py
+++ b/python/moz/l10n/formats/webext/parse.py
@@ -72,6 +72,7 @@ def webext_parse_message(
     )
     pattern: Pattern = []
     declarations: dict[str, Expression] = {}
+    ph_names: dict[str, str] = {}
     pos = 0
     for m in placeholder.finditer(source):
         text = source[pos : m.start()]
@@ -86,8 +87,8 @@ def webext_parse_message(
             ph = ph_data.get(ph_key, None)
             if ph is None:
                 raise ValueError(f"Missing placeholders entry for {ph_key}")
-            elif "_name" in ph:
-                ph_name = ph["_name"]
+            elif ph_key in ph_names:
+                ph_name = ph_names[ph_key]
             else:
                 decl_src = ph["content"]
                 decl_arg_match = pos_arg.fullmatch(decl_src)
@@ -105,7 +106,7 @@ def webext_parse_message(
                 if ph_name[0].isdigit():
                     ph_name = f"_{ph_name}"
                 declarations[ph_name] = decl_value
-                ph["_name"] = ph_name
+                ph_names[ph_key] = ph_name
             exp = Expression(VariableRef(ph_name), attributes={"source": m[0]})
             pattern.append(exp)
         elif m[2]:
-- 
2.43.0


From 2c17a922670be1b7eb3462deae23c414006ae512 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:23:53 +0000
Subject: [PATCH 021/102] fix: do not confuse webext placeholders with similar
 names

---
 python/moz/l10n/formats/webext/parse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/formats/webext/parse.py b/python/moz/l10n/formats/webext/parse.py
index d65f008..cb38ecd 100644
--- a/python/moz/l10n/formats/webext/parse.py
+++ b/python/moz/l10n/formats/webext/parse.py
@@ -73,6 +73,7 @@ def webext_parse_message(
     pattern: Pattern = []
     declarations: dict[str, Expression] = {}
     ph_names: dict[str, str] = {}
+    pos_names = {f"arg{m[2][1]}" for m in placeholder.finditer(source) if m[2]}
     pos = 0
     for m in placeholder.finditer(source):
         text = source[pos : m.start()]
@@ -105,6 +106,8 @@ def webext_parse_message(
                 ph_name = m[1].replace("@", "_")
                 if ph_name[0].isdigit():
                     ph_name = f"_{ph_name}"
+                while ph_name in declarations or ph_name in pos_names:
+                    ph_name += "_"
                 declarations[ph_name] = decl_value
                 ph_names[ph_key] = ph_name
             exp = Expression(VariableRef(ph_name), attributes={"source": m[0]})
-- 
2.43.0


From 46ff12c3dea412aa2360e3ee9da3aa1cbf81fd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:25:26 +0000
Subject: [PATCH 022/102] fix: refuse webext messages that would be read with
 other placeholders; merge adjacent text before escaping

---
 python/moz/l10n/formats/webext/serialize.py | 34 ++++++++++++++++++---
 1 file changed, 30 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index 53fb6a0..43ed985 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -27,6 +27,7 @@ from ...model import (
     Resource,
     VariableRef,
 )
+from .parse import placeholder, pos_arg
 
 
 def webext_serialize(
@@ -101,11 +102,17 @@ def webext_serialize_message(
     if not isinstance(msg, PatternMessage):
         raise ValueError(f"Unsupported message: {msg}")
     msgstr = ""
+    text = ""
+    tokens: list[tuple[int, str]] = []
     placeholders: dict[str, Any] = {}
     for part in msg.pattern:
         if isinstance(part, str):
-            msgstr += sub(r"\$+", r"$\g<0>", part)
-        elif (
+            text += part
+            continue
+        msgstr += sub(r"\$+", r"$\g<0>", text)
+        text = ""
+        start = len(msgstr)
+        if (
             isinstance(part, Expression)
             and isinstance(part.arg, VariableRef)
             and part.function is None
@@ -120,7 +127,11 @@ def webext_serialize_message(
                 elif isinstance(local.arg, VariableRef):
                     content = local.arg.name
                     if not content.startswith("$"):
-                        content = f"${content}"
+                        content = f"${sub('^arg(?=[1-9]$)', '', content)}"
+                    if not pos_arg.fullmatch(content):
+                        raise ValueError(
+                            f"Unsupported placeholder for {ph_name}: {local}"
+                        )
                 elif isinstance(local.arg, str):
                     content = local.arg
                 else:
@@ -136,7 +147,11 @@ def webext_serialize_message(
                     ph_name = source[1:-1]
                 else:
                     source = None
-                if not any(key.lower() == ph_name.lower() for key in placeholders):
+                prev_name = next(
+                    (key for key in placeholders if key.lower() == ph_name.lower()),
+                    None,
+                )
+                if prev_name is None:
                     placeholders[ph_name] = {"content": content}
                     example = (
                         None if trim_comments else local.attributes.get("example", None)
@@ -147,10 +162,21 @@ def webext_serialize_message(
                         raise ValueError(
                             f"Unsupported placeholder example for {ph_name}: {example}"
                         )
+                elif placeholders[prev_name]["content"] != content:
+                    raise ValueError(f"Duplicate placeholder: {ph_name}")
                 msgstr += source or f"${ph_name}$"
             else:
                 arg_name = source if isinstance(source, str) else ph_name
+                arg_name = sub("^arg(?=[1-9]$)", "", arg_name)
                 msgstr += arg_name if arg_name.startswith("$") else f"${arg_name}"
+                if not pos_arg.fullmatch(msgstr, start):
+                    raise ValueError(f"Unsupported placeholder: {part}")
         else:
             raise ValueError(f"Unsupported message part: {part}")
+        tokens.append((start, msgstr[start:]))
+    msgstr += sub(r"\$+", r"$\g<0>", text)
+    found = [(m.start(), m[0]) for m in placeholder.finditer(msgstr) if not m[3]]
+    if found != tokens:
+        # Dollar signs next to a placeholder may be read as a part of it
+        raise ValueError(f"Message is not representable: {msg}")
     return msgstr, dict(sorted(placeholders.items()))
-- 
2.43.0


From 5a06a48c7e8ebc5e695f7ddefa272317459a2304 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:20 +0000
Subject: [PATCH 023/102] fix: write Fluent text, literals and select messages
 that are read back as they were, and refuse those that cannot be

Also, fluent_parse_message() keeps indentation, and does not drop what follows a line that starts with a syntax character.
---
 python/moz/l10n/formats/fluent/parse.py     |   7 +-
 python/moz/l10n/formats/fluent/serialize.py | 251 +++++++++++++-------
 2 files changed, 168 insertions(+), 90 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 1bcecb2..b4384f3 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -168,11 +168,14 @@ def fluent_parse_message(source: str) -> Message:
 
     Leading and trailing whitespace is stripped.
     """
-    source = source.lstrip().replace("\n", "\n ")
+    source = " " + source.lstrip().replace("\n", "\n ")
     parser = FluentParser(with_spans=False)
     ps = FluentParserStream(source)
     try:
-        ftl_pattern = parser.get_pattern(ps, is_block=False)
+        ftl_pattern = parser.get_pattern(ps, is_block=True)
+        ps.skip_blank()
+        if ps.current_char:
+            raise ValueError(f"Unexpected {ps.current_char} at the start of a line")
     except ParseError as err:
         raise ValueError(err.message or "Fluent parser error") from err
     return message(ftl_pattern)
diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 9312a18..0f62a14 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -37,6 +37,9 @@ from ...model import (
     VariableRef,
 )
 
+number_literal = compile(r"-?[0-9]+(?:\.[0-9]+)?")
+identifier_name = r"[a-zA-Z][a-zA-Z0-9_-]*"
+
 ws_at_start = compile(r"\s+")
 ws_at_end = compile(r"\s+$")
 
@@ -108,20 +111,17 @@ def fluent_astify(
         if trim_comments:
             return ""
         cs = node.comment.rstrip()
-        if not isinstance(node, Comment) and node.meta:
-            if not serialize_metadata:
-                raise ValueError("Metadata requires serialize_metadata parameter")
-            for field in node.meta:
-                if (
-                    isinstance(node, Resource)
-                    and field.key == "info"
-                    and field == node.meta[0]
-                ):
-                    continue
-                meta_str = serialize_metadata(field)
-                if meta_str:
-                    ms = meta_str.strip("\n")
-                    cs = f"{cs}\n{ms}" if cs else ms
+        meta = [] if isinstance(node, Comment) else node.meta
+        if isinstance(node, Resource) and meta and meta[0].key == "info":
+            meta = meta[1:]
+        if meta and not serialize_metadata:
+            raise ValueError("Metadata requires serialize_metadata parameter")
+        for field in meta:
+            assert serialize_metadata
+            meta_str = serialize_metadata(field)
+            if meta_str:
+                ms = meta_str.strip("\n")
+                cs = f"{cs}\n{ms}" if cs else ms
         return cs
 
     body: list[ftl.EntryType] = []
@@ -134,9 +134,7 @@ def fluent_astify(
         and res_info.value
     ):
         body.append(ftl.Comment(res_info.value))
-        res_comment = resource.comment.rstrip()
-    else:
-        res_comment = comment_str(resource)
+    res_comment = comment_str(resource)
     if res_comment:
         body.append(ftl.ResourceComment(res_comment))
     for idx, section in enumerate(resource.sections):
@@ -204,7 +202,7 @@ def fluent_astify_entry(
     )
     attributes = list(
         ftl.Attribute(
-            ftl.Identifier(key),
+            identifier(key),
             fluent_astify_message(val, escape_empty=True, escape_syntax=escape_syntax),
         )
         for key, val in entry.properties.items()
@@ -221,13 +219,13 @@ def fluent_astify_entry(
         c_str = comment_str(entry)
     comment = ftl.Comment(c_str) if c_str else None
     if is_term:
-        return ftl.Term(ftl.Identifier(id[1:]), value, attributes, comment)
+        return ftl.Term(identifier(id[1:]), value, attributes, comment)
     else:
         if pattern_is_empty(value):
             value_ = None if attributes else valid_empty_pattern(value)
         else:
             value_ = value
-        return ftl.Message(ftl.Identifier(id), value_, attributes, comment)
+        return ftl.Message(identifier(id), value_, attributes, comment)
 
 
 def fluent_serialize_message(
@@ -295,49 +293,79 @@ def fluent_astify_message(
     if not isinstance(message, SelectMessage):
         raise ValueError(f"Unsupported message: {message}")
 
-    # It gets a bit complicated for SelectMessage. We'll be modifying this list,
-    # building select expressions for each selector starting from the last one
-    # until this list has only one entry `[[], pattern]`.
-    #
-    # We rely on the variants being in order, so that a variant with N keys
-    # will be next to all other variants for which the first N-1 keys are equal.
-    variants = [
-        (list(keys), flat_pattern(message.declarations, value, escape_syntax))
-        for keys, value in message.variants.items()
-    ]
-
     other = fallback_name(message)
-    keys0 = variants[0][0]
-    while keys0:
-        selector = value(message.declarations, message.selectors[len(keys0) - 1])
-        if (
-            isinstance(selector, ftl.FunctionReference)
-            and selector.id.name == "NUMBER"
-            and selector.arguments.positional
-            and isinstance(selector.arguments.positional[0], ftl.VariableReference)
-            and not selector.arguments.named
-        ):
-            selector = selector.arguments.positional[0]
-        base_keys = []
-        sel_exp = None
-        i = 0
-        while i < len(variants):
-            keys, pattern = variants[i]
-            key = keys.pop()  # Ultimately modifies keys0
-            ftl_variant = ftl.Variant(
-                variant_key(key, other), pattern, isinstance(key, CatchallKey)
+    return select_pattern(
+        [select_expression(message.declarations, sel) for sel in message.selectors],
+        [
+            (keys, variant_pattern(message.declarations, pattern, escape_syntax))
+            for keys, pattern in message.variants.items()
+        ],
+        other,
+    )
+
+
+def select_expression(
+    decl: dict[str, Expression], sel: VariableRef
+) -> ftl.InlineExpression:
+    selector = value(decl, sel)
+    if (
+        isinstance(selector, ftl.FunctionReference)
+        and selector.id.name == "NUMBER"
+        and selector.arguments.positional
+        and isinstance(selector.arguments.positional[0], ftl.VariableReference)
+        and not selector.arguments.named
+    ):
+        return selector.arguments.positional[0]
+    if isinstance(selector, ftl.MessageReference) or (
+        isinstance(selector, ftl.TermReference) and not selector.attribute
+    ):
+        raise ValueError(f"Unsupported selector: {sel.name}")
+    return selector
+
+
+def select_pattern(
+    selectors: list[ftl.InlineExpression],
+    variants: list[tuple[tuple[str | CatchallKey, ...], ftl.Pattern]],
+    other: str,
+    idx: int = 0,
+) -> ftl.Pattern:
+    """
+    Build a select expression for the selector at `idx`,
+    with those for later selectors in its variants.
+    """
+    if any(len(keys) != len(selectors) for keys, _ in variants):
+        raise ValueError("Error resolving select message variants: Key mismatch")
+    if idx == len(selectors):
+        if len(variants) != 1:
+            raise ValueError(
+                f"Error resolving select message variants (n={len(variants)})"
             )
-            if sel_exp and keys == base_keys:
-                sel_exp.variants.append(ftl_variant)
-                variants.pop(i)
-            else:
-                base_keys = keys
-                sel_exp = ftl.SelectExpression(selector.clone(), [ftl_variant])
-                variants[i] = (keys, ftl.Pattern([ftl.Placeable(sel_exp)]))
-                i += 1
-    if len(variants) != 1:
-        raise ValueError(f"Error resolving select message variants (n={len(variants)})")
-    return variants[0][1]
+        return variants[0][1]
+
+    groups: dict[str | CatchallKey, list[Any]] = {}
+    for variant in variants:
+        groups.setdefault(variant[0][idx], []).append(variant)
+    if CatchallKey() not in groups:
+        raise ValueError("Error resolving select message variants: No default variant")
+    ftl_variants = [
+        ftl.Variant(
+            variant_key(key, other),
+            select_pattern(selectors, group, other, idx + 1),
+            isinstance(key, CatchallKey),
+        )
+        for key, group in groups.items()
+    ]
+    # Fluent uses the first match, and numbers need to be matched before categories.
+    ftl_variants.sort(key=lambda v: not isinstance(v.key, ftl.NumberLiteral))
+    sel_exp = ftl.SelectExpression(selectors[idx].clone(), ftl_variants)
+    return ftl.Pattern([ftl.Placeable(sel_exp)])
+
+
+def variant_pattern(
+    decl: dict[str, Expression], pattern: Pattern, escape_syntax: bool
+) -> ftl.Pattern:
+    res = flat_pattern(decl, pattern, escape_syntax)
+    return valid_empty_pattern(res) if pattern_is_empty(res) else res
 
 
 def fallback_name(message: SelectMessage) -> str:
@@ -355,20 +383,19 @@ def fallback_name(message: SelectMessage) -> str:
 def variant_key(
     key: str | CatchallKey, other: str
 ) -> ftl.NumberLiteral | ftl.Identifier:
-    kv = str(key) or other
-    try:
-        float(kv)
+    kv = (key.value or other) if isinstance(key, CatchallKey) else key
+    if number_literal.fullmatch(kv):
         return ftl.NumberLiteral(kv)
-    except Exception:
-        if fullmatch(r"[a-zA-Z][\w-]*", kv):
-            return ftl.Identifier(kv)
-        raise ValueError(f"Unsupported variant key: {kv}")
+    if fullmatch(identifier_name, kv):
+        return ftl.Identifier(kv)
+    raise ValueError(f"Unsupported variant key: {kv}")
 
 
 def flat_pattern(
     decl: dict[str, Expression], pattern: Pattern, escape_syntax: bool
 ) -> ftl.Pattern:
     elements: list[ftl.TextElement | ftl.Placeable] = []
+    pattern = join_text(pattern)
     last = len(pattern) - 1
     for idx, el in enumerate(pattern):
         if isinstance(el, str):
@@ -385,17 +412,34 @@ def flat_pattern(
                 if ws is not None:
                     ws_start = ws.start()
                     if ws_start > 0:
-                        elements += text(el[:ws_start], escape_syntax)
+                        elements += text(el[:ws_start], escape_syntax, not elements)
                     elements.append(ftl.Placeable(value(decl, el[ws_start:])))
                     continue
-            elements += text(el, escape_syntax)
+            elements += text(el, escape_syntax, not elements)
         elif isinstance(el, Expression):
-            elements.append(ftl.Placeable(expression(decl, el)))
+            exp = expression(decl, el)
+            if isinstance(exp, ftl.TermReference) and exp.attribute:
+                raise ValueError(f"Term attributes are not supported here: {el.arg}")
+            elements.append(ftl.Placeable(exp))
         else:
             raise ValueError(f"Conversion to Fluent not supported: {el}")
     return ftl.Pattern(elements)
 
 
+def join_text(pattern: Pattern) -> Pattern:
+    """Joins adjacent text, as escaping it depends on what is before and after it."""
+    res: Pattern = []
+    for el in pattern:
+        if isinstance(el, str):
+            if not el:
+                continue
+            if res and isinstance(res[-1], str):
+                res[-1] += el
+                continue
+        res.append(el)
+    return res
+
+
 def pattern_is_empty(pattern: ftl.Pattern) -> bool:
     return all(
         isinstance(el, ftl.TextElement) and (el.value == "" or el.value.isspace())
@@ -412,24 +456,33 @@ def valid_empty_pattern(pattern: ftl.Pattern) -> ftl.Pattern:
     empty_text = "".join(
         el.value for el in pattern.elements if isinstance(el, ftl.TextElement)
     )
-    return ftl.Pattern([ftl.Placeable(value({}, empty_text))])
+    return ftl.Pattern([ftl.Placeable(string_literal(empty_text))])
 
 
-not_text = compile(r"[{}]+|\n *[*.[]")
+# Braces, line breaks other than LF, spaces on an otherwise empty line,
+# and syntax characters at the start of a line.
+not_text = compile(
+    r"[{}]+|[\r\x0b\x0c\x1c-\x1e\x85\u2028\u2029]+|(?<=\n) +(?=\n)|(?<=\n)( *)[*.[]"
+)
 
 
-def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeable]:
+def text(
+    source: str, escape_syntax: bool, at_start: bool = True
+) -> list[ftl.TextElement | ftl.Placeable]:
     if not escape_syntax:
         return [ftl.TextElement(source)]
     elements: list[ftl.TextElement | ftl.Placeable] = []
     idx = 0
+    if at_start and source.startswith(("*", ".", "[")) and "\n" in source:
+        # Otherwise, the pattern could not start on a new line,
+        # and its indentation would be lost.
+        elements.append(ftl.Placeable(ftl.StringLiteral(source[0])))
+        idx = 1
     for m in not_text.finditer(source):
-        start = m.start()
-        esc = m[0].lstrip()
-        start += len(m[0]) - len(esc)
+        start = m.end(1) if m[1] else m.start()
         if start > idx:
             elements.append(ftl.TextElement(source[idx:start]))
-        elements.append(ftl.Placeable(ftl.StringLiteral(esc)))
+        elements.append(ftl.Placeable(string_literal(source[start : m.end()])))
         idx = m.end()
     if idx < len(source):
         elements.append(ftl.TextElement(source[idx:]))
@@ -439,7 +492,13 @@ def text(source: str, escape_syntax: bool) -> list[ftl.TextElement | ftl.Placeab
 def expression(
     decl: dict[str, Expression], expr: Expression, decl_name: str = ""
 ) -> ftl.InlineExpression:
-    arg = value(decl, expr.arg, decl_name) if expr.arg is not None else None
+    arg = (
+        None
+        if expr.arg is None
+        else string_literal(expr.arg)
+        if isinstance(expr.arg, str) and expr.function in (None, "string")
+        else value(decl, expr.arg, decl_name)
+    )
     if expr.function:
         return function_ref(decl, arg, expr)
     if arg:
@@ -456,7 +515,7 @@ def function_ref(
     for name, val in expr.options.items():
         ftl_val = value(decl, val)
         if isinstance(ftl_val, ftl.Literal):
-            named.append(ftl.NamedArgument(ftl.Identifier(name), ftl_val))
+            named.append(ftl.NamedArgument(identifier(name), ftl_val))
         else:
             raise ValueError(
                 f"Fluent option value must be literal for {name}: {ftl_val}"
@@ -489,7 +548,9 @@ def function_ref(
             raise ValueError(
                 "Message and term references must have a literal message identifier"
             )
-        match = fullmatch(r"(-?[a-zA-Z][\w-]*)(?:\.([a-zA-Z][\w-]*))?", arg.value)
+        match = fullmatch(
+            f"(-?{identifier_name})(?:\\.({identifier_name}))?", arg.value
+        )
         if not match:
             raise ValueError(f"Invalid message or term identifier: {arg.value}")
         msg_id = match[1]
@@ -505,13 +566,19 @@ def function_ref(
 
     if not ftl_name or not isinstance(ftl_name, str):
         raise ValueError(f"A @fluent-fn attribute is required for :{function}")
+    if not fullmatch(r"[A-Z][A-Z0-9_-]*", ftl_name):
+        raise ValueError(f"Invalid Fluent function name: {ftl_name}")
 
     args = ftl.CallArguments([arg] if arg else None, named)
     return ftl.FunctionReference(ftl.Identifier(ftl_name), args)
 
 
-# Non-printable ASCII C0 & C1 / Unicode Cc characters
-esc_cc = {n: f"\\u{n:04X}" for r in (range(0, 32), range(127, 160)) for n in r}
+# Non-printable ASCII C0 & C1 / Unicode Cc characters, and Unicode line separators
+esc_cc = {
+    n: f"\\u{n:04X}"
+    for r in (range(0, 32), range(127, 160), range(0x2028, 0x202A))
+    for n in r
+}
 esc_bs = compile(r'([\\"])')
 
 
@@ -519,12 +586,20 @@ def value(
     decl: dict[str, Expression], val: str | VariableRef, decl_name: str = ""
 ) -> ftl.InlineExpression:
     if isinstance(val, str):
-        try:
-            float(val)
+        if number_literal.fullmatch(val):
             return ftl.NumberLiteral(val)
-        except Exception:
-            return ftl.StringLiteral(esc_bs.sub(r"\\\1", val).translate(esc_cc))
+        return string_literal(val)
     elif val.name != decl_name and val.name in decl:
         return expression(decl, decl[val.name], val.name)
     else:
-        return ftl.VariableReference(ftl.Identifier(val.name))
+        return ftl.VariableReference(identifier(val.name))
+
+
+def string_literal(val: str) -> ftl.StringLiteral:
+    return ftl.StringLiteral(esc_bs.sub(r"\\\1", val).translate(esc_cc))
+
+
+def identifier(name: str) -> ftl.Identifier:
+    if not fullmatch(identifier_name, name):
+        raise ValueError(f"Invalid Fluent identifier: {name}")
+    return ftl.Identifier(name)
-- 
2.43.0


From 8ade9c6c76065f0b018cbc91cc869b1acf52f8ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:52:20 +0000
Subject: [PATCH 024/102] fix: flatten Fluent select expressions with different
 keys for the same selector as they would be formatted

---
 python/moz/l10n/formats/fluent/parse.py | 282 +++++++++++++++++-------
 1 file changed, 197 insertions(+), 85 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index b4384f3..f9928aa 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -14,7 +14,6 @@
 
 from __future__ import annotations
 
-from itertools import product
 from re import finditer
 from typing import cast
 
@@ -219,77 +218,50 @@ def fluent_entry(
 
 def message(ftl_pattern: ftl.Pattern) -> Message:
     sel_data = find_selectors(ftl_pattern, [])
-    sel_expressions = [sd[0] for sd in sel_data]
-    filter: list[Key | None] = [None] * len(sel_expressions)
-    msg_variants: dict[tuple[Key, ...], Pattern]
-    var_names: set[str] = set()
-    if sel_expressions:
-        key_lists = [list(dict.fromkeys(sd[2])) for sd in sel_data]
-        for keys in key_lists:
-            keys.sort(key=lambda k: (k[2], not k[1]))
-        msg_variants = {key: [] for key in product(*key_lists)}
-    else:
-        msg_variants = {(): []}
+    if not sel_data:
+        return PatternMessage(flat_pattern(ftl_pattern, sel_data, ())[0])
 
-    def add_pattern(ftl_pattern: ftl.Pattern) -> None:
-        el: (
-            ftl.TextElement
-            | ftl.Placeable
-            | ftl.InlineExpression
-            | ftl.SelectExpression
+    flat = flat_variants(ftl_pattern, sel_data)
+    ambiguous = {idx for _, _, use in flat for idx in use.ambiguous}
+    ambiguous.update(
+        idx for idx, (_, selects) in enumerate(sel_data) if ambiguous_nesting(selects)
+    )
+    if ambiguous:
+        # These need separate selectors for the select expressions with different keys,
+        # as it depends on the locale which category each number has.
+        sel_data = [
+            sd
+            for idx, sd in enumerate(sel_data)
+            for sd in (split_selector(sd) if idx in ambiguous else [sd])
+        ]
+        flat = flat_variants(ftl_pattern, sel_data)
+
+    var_names = {
+        expr.arg.name
+        for exprs in (
+            (el for _, pattern, _ in flat for el in pattern),
+            (sel for sel, _ in sel_data),
         )
-        for el in ftl_pattern.elements:
-            while isinstance(el, ftl.Placeable):
-                el = el.expression
-            if isinstance(el, ftl.SelectExpression):
-                msg_sel = next(sd[0] for sd in sel_data if el.selector in sd[1])
-                idx = sel_expressions.index(msg_sel)
-                prev_filt = filter[idx]
-                for v in el.variants:
-                    filter[idx] = variant_key(v)
-                    add_pattern(v.value)
-                filter[idx] = prev_filt
-            else:
-                for keys, msg_pattern in msg_variants.items():
-                    if all(
-                        (filt is None or key == filt) for key, filt in zip(keys, filter)
-                    ):
-                        if isinstance(el, ftl.TextElement):
-                            if msg_pattern and isinstance(msg_pattern[-1], str):
-                                msg_pattern[-1] += el.value
-                            else:
-                                msg_pattern.append(el.value)
-                        else:
-                            expr = inline_expression(el)
-                            if isinstance(expr.arg, VariableRef):
-                                var_names.add(expr.arg.name)
-                            msg_pattern.append(expr)
-
-    add_pattern(ftl_pattern)
-
-    if sel_expressions:
-        declarations = {}
-        selectors = []
-        for expr in sel_expressions:
-            name = expr.arg.name if isinstance(expr.arg, VariableRef) else None
-            if name is None or expr.attributes.get("fluent-fn") is not None:
-                stem = name or "sel"
-                name = None
-                i = 0
-                while name is None or name in var_names:
-                    i += 1
-                    name = f"{stem}_{i}"
-            declarations[name] = expr
-            selectors.append(VariableRef(name))
-            var_names.add(name)
-        variants = {
-            tuple(map(message_key, keys)): msg_pattern
-            for keys, msg_pattern in msg_variants.items()
-            if msg_pattern
-        }
-        return SelectMessage(declarations, tuple(selectors), variants)
-    else:
-        return PatternMessage(next(iter(msg_variants.values())))
+        for expr in exprs
+        if isinstance(expr, Expression) and isinstance(expr.arg, VariableRef)
+    }
+    declarations: dict[str, Expression] = {}
+    selectors = []
+    for expr, _ in sel_data:
+        stem = expr.arg.name if isinstance(expr.arg, VariableRef) else "sel"
+        name = stem
+        if (
+            not isinstance(expr.arg, VariableRef)
+            or name in declarations
+            or expr.attributes.get("fluent-fn") is not None
+        ):
+            i = 1
+            while (name := f"{stem}_{i}") in var_names or name in declarations:
+                i += 1
+        declarations[name] = expr
+        selectors.append(VariableRef(name))
+    variants = {tuple(map(message_key, keys)): pattern for keys, pattern, _ in flat}
+    return SelectMessage(declarations, tuple(selectors), variants)
 
 
 Key = tuple[str, bool, bool]
@@ -310,32 +282,172 @@ def variant_key(v: ftl.Variant) -> Key:
 
 def message_key(key: Key) -> str | CatchallKey:
     name, _, is_default = key
-    return CatchallKey(name) if is_default else name
+    return CatchallKey(name or None) if is_default else name
+
+
+SelectorData = tuple[Expression, list[ftl.SelectExpression]]
+"(message selector, the select expressions using it)"
 
 
 def find_selectors(
-    pattern: ftl.Pattern,
-    result: list[tuple[Expression, list[ftl.InlineExpression], list[Key]]],
-) -> list[tuple[Expression, list[ftl.InlineExpression], list[Key]]]:
+    pattern: ftl.Pattern, result: list[SelectorData]
+) -> list[SelectorData]:
     for el in pattern.elements:
-        if isinstance(el, ftl.Placeable) and isinstance(
-            el.expression, ftl.SelectExpression
-        ):
-            ftl_sel = el.expression.selector
-            keys = [variant_key(v) for v in el.expression.variants]
-            msg_sel = select_expression(ftl_sel, keys)
+        while isinstance(el, ftl.Placeable):
+            el = el.expression  # type: ignore[assignment]
+        if isinstance(el, ftl.SelectExpression):
+            keys = [variant_key(v) for v in el.variants]
+            msg_sel = select_expression(el.selector, keys)
             prev = next((x for x in result if x[0] == msg_sel), None)
             if prev:
-                _, ftl_list, key_list = prev
-                ftl_list.append(ftl_sel)
-                key_list += keys
+                prev[1].append(el)
             else:
-                result.append((msg_sel, [ftl_sel], keys))
-            for v in el.expression.variants:
+                result.append((msg_sel, [el]))
+            for v in el.variants:
                 find_selectors(v.value, result)
     return result
 
 
+def split_selector(sd: SelectorData) -> list[SelectorData]:
+    expr, selects = sd
+    result: dict[frozenset[Key], list[ftl.SelectExpression]] = {}
+    for sel in selects:
+        result.setdefault(frozenset(map(variant_key, sel.variants)), []).append(sel)
+    return [(expr, sel) for sel in result.values()]
+
+
+def ambiguous_nesting(selects: list[ftl.SelectExpression]) -> bool:
+    """
+    Is one of the select expressions nested in another one,
+    with both numbers and categories as keys, but not the same ones?
+    """
+    for sel in selects:
+        sel_keys = set(map(variant_key, sel.variants))
+        for v in sel.variants:
+            for _, inner_selects in find_selectors(v.value, []):
+                for inner in inner_selects:
+                    if any(inner is s for s in selects):
+                        inner_keys = set(map(variant_key, inner.variants))
+                        if inner_keys != sel_keys and (
+                            len({key[1] for key in sel_keys | inner_keys}) > 1
+                        ):
+                            return True
+    return False
+
+
+class SelectorUse:
+    """
+    How the selector keys were used when resolving one variant:
+    The indices of the selectors with a non-default key
+    that was or was not found in some select expression.
+    For `ambiguous` ones, a number that was not found could match a category instead.
+    """
+
+    def __init__(self) -> None:
+        self.found: set[int] = set()
+        self.missing: set[int] = set()
+        self.ambiguous: set[int] = set()
+
+
+def flat_variants(
+    ftl_pattern: ftl.Pattern, sel_data: list[SelectorData]
+) -> list[tuple[tuple[Key, ...], Pattern, SelectorUse]]:
+    key_lists: list[list[Key]] = []
+    for _, selects in sel_data:
+        keys: dict[Key, None] = {}
+        defaults: list[Key] = []
+        for sel in selects:
+            for v in sel.variants:
+                key = variant_key(v)
+                if v.default:
+                    defaults.append(key)
+                else:
+                    keys[key] = None
+        default = defaults[0]
+        if any(not is_numeric for _, is_numeric, _ in keys):
+            # The names of default variants only matter
+            # if they are numbers that may match some category.
+            keys.update(((k[0], True, False), None) for k in defaults if k[1])
+            default = next((k for k in defaults if not k[1]), ("", False, True))
+        key_lists.append([*sorted(keys, key=lambda k: not k[1]), default])
+
+    def expand(
+        keys: tuple[Key, ...],
+    ) -> list[tuple[tuple[Key, ...], Pattern, SelectorUse]]:
+        idx = len(keys)
+        if idx == len(key_lists):
+            pattern, use = flat_pattern(ftl_pattern, sel_data, keys)
+            return [(keys, pattern, use)]
+        result = []
+        for key in key_lists[idx]:
+            variants = expand((*keys, key))
+            # A key not included in any of the select expressions in effect
+            # is not needed, as its variants match the default ones.
+            if key[2] or not all(
+                idx in use.missing and idx not in use.found for _, _, use in variants
+            ):
+                result += variants
+        return result
+
+    return expand(())
+
+
+def flat_pattern(
+    ftl_pattern: ftl.Pattern, sel_data: list[SelectorData], keys: tuple[Key, ...]
+) -> tuple[Pattern, SelectorUse]:
+    pattern: Pattern = []
+    use = SelectorUse()
+
+    def add_pattern(ftl_pattern: ftl.Pattern) -> None:
+        el: (
+            ftl.TextElement
+            | ftl.Placeable
+            | ftl.InlineExpression
+            | ftl.SelectExpression
+        )
+        for el in ftl_pattern.elements:
+            while isinstance(el, ftl.Placeable):
+                el = el.expression
+            if isinstance(el, ftl.SelectExpression):
+                idx = next(
+                    idx
+                    for idx, (_, selects) in enumerate(sel_data)
+                    if any(sel is el for sel in selects)
+                )
+                add_pattern(select_variant(el, idx).value)
+            elif isinstance(el, ftl.TextElement):
+                if pattern and isinstance(pattern[-1], str):
+                    pattern[-1] += el.value
+                else:
+                    pattern.append(el.value)
+            else:
+                pattern.append(inline_expression(el))
+
+    def select_variant(sel: ftl.SelectExpression, idx: int) -> ftl.Variant:
+        name, is_numeric, is_default = keys[idx]
+        default = next(v for v in sel.variants if v.default)
+        if is_default:
+            return default
+        has_category = False
+        for v in sel.variants:
+            v_name, v_is_numeric, v_is_default = variant_key(v)
+            if is_numeric == v_is_numeric and (
+                float(name) == float(v_name) if is_numeric else name == v_name
+            ):
+                if is_numeric or not v_is_default:
+                    use.found.add(idx)
+                    return v
+            elif not v_is_numeric and not v_is_default:
+                has_category = True
+        use.missing.add(idx)
+        if is_numeric and has_category:
+            use.ambiguous.add(idx)
+        return default
+
+    add_pattern(ftl_pattern)
+    return pattern, use
+
+
 def select_expression(ftl_sel: ftl.InlineExpression, keys: list[Key]) -> Expression:
     plural_categories = ("zero", "one", "two", "few", "many", "other")
     if isinstance(ftl_sel, ftl.VariableReference):
-- 
2.43.0


From 79d1c2783d1fbcf2aafc8b99ba57df74d9129243 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:03:56 +0000
Subject: [PATCH 025/102] fix: serialize Android strings as XML rather than
 HTML

---
 python/moz/l10n/formats/android/serialize.py | 24 +++++++++++---------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 322ab9a..ea1bb45 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -159,7 +159,10 @@ def android_serialize(
         for entity in entities:
             yield f"  {entity}\n"
         yield "]>\n"
-    yield etree.tostring(root, encoding="unicode", method="html")
+    for el in root.iter("string", "item"):
+        if not el.text:
+            el.text = ""  # Avoid self-closing tags
+    yield etree.tostring(root, encoding="unicode")
     yield "\n"
 
 
@@ -174,9 +177,7 @@ def android_serialize_message(msg: Message | str, *, allow_cdata: bool = False)
 
     target = etree.Element("string")
     set_pattern_message(target, msg, allow_cdata=allow_cdata)
-    string = etree.tostring(
-        target, encoding="unicode", method="html", pretty_print=True
-    ).strip()
+    string = etree.tostring(target, encoding="unicode")
     if string == "<string/>":
         return ""
     if not string.startswith("<string>"):
@@ -287,10 +288,12 @@ def set_pattern_message(
     if isinstance(msg, str):
         el.text = escape_part(msg)
         escape_pattern(el)
-        if allow_cdata and tag_like.search(el.text) is not None:
-            # The manual wrapper is a workaround for
-            # https://bugs.launchpad.net/lxml/+bug/2111509
-            el.text = etree.CDATA(f"<![CDATA[{el.text}]]>")
+        if (
+            allow_cdata
+            and tag_like.search(el.text) is not None
+            and "]]>" not in el.text
+        ):
+            el.text = etree.CDATA(el.text)
     elif isinstance(msg, PatternMessage) and not msg.declarations:
         set_pattern(el, msg.pattern, allow_cdata=allow_cdata)
     else:
@@ -391,10 +394,9 @@ def set_pattern(
         and len(el) == 0
         and el.text
         and tag_like.search(el.text) is not None
+        and "]]>" not in el.text
     ):
-        # The manual wrapper is a workaround for
-        # https://bugs.launchpad.net/lxml/+bug/2111509
-        el.text = etree.CDATA(f"<![CDATA[{el.text}]]>")
+        el.text = etree.CDATA(el.text)
 
 
 def entity_name(part: Expression) -> str | None:
-- 
2.43.0


From 04e5cdc4c0038c1d86a87dd3374990ea0d47892e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:04:33 +0000
Subject: [PATCH 026/102] fix: escape Android text that would be read as
 something else; refuse unclosed markup

---
 python/moz/l10n/formats/android/serialize.py | 44 +++++++++++++++++---
 1 file changed, 39 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index ea1bb45..8101f0f 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -24,6 +24,7 @@ from ...model import (
     CatchallKey,
     Entry,
     Expression,
+    Markup,
     Message,
     Metadata,
     Pattern,
@@ -317,9 +318,9 @@ def set_pattern(
 
     parent = el
     node = None
-    for part in pattern:
+    for part, next in with_next(pattern):
         if isinstance(part, str):
-            esc = escape_part(part)
+            esc = escape_part(part, is_text(next))
             if node is None:
                 parent.text = parent.text + esc if parent.text else esc
             else:
@@ -356,7 +357,7 @@ def set_pattern(
             else:
                 source = None
                 if isinstance(part.arg, str):
-                    source = escape_part(part.arg)
+                    source = escape_part(part.arg, is_text(next))
                 elif isinstance(part.arg, VariableRef):
                     source = part.arg.name
                 if source is not None:
@@ -388,6 +389,8 @@ def set_pattern(
                 parent = cast(etree._Element, parent.getparent())
             else:
                 raise ValueError(f"Improper element nesting for {part} in {parent}")
+    if parent != el:
+        raise ValueError(f"Missing close element for {parent}")
     escape_pattern(el)
     if (
         allow_cdata
@@ -399,6 +402,31 @@ def set_pattern(
         el.text = etree.CDATA(el.text)
 
 
+def with_next(
+    pattern: Pattern,
+) -> Iterator[tuple[str | Expression | Markup, str | Expression | Markup | None]]:
+    """Pattern parts with the part following each, with adjacent text joined."""
+    prev: str | Expression | Markup | None = None
+    for part in pattern:
+        if isinstance(part, str) and isinstance(prev, str):
+            prev += part
+        else:
+            if prev is not None:
+                yield prev, part
+            prev = part
+    if prev is not None:
+        yield prev, None
+
+
+def is_text(part: str | Expression | Markup | None) -> bool:
+    """Is the part represented as text, which may be read together with text before it?"""
+    return isinstance(part, str) or (
+        isinstance(part, Expression)
+        and part.function != "entity"
+        and part.attributes.get("translate", None) != "no"
+    )
+
+
 def entity_name(part: Expression) -> str | None:
     if part.function == "entity":
         name = part.arg.name if isinstance(part.arg, VariableRef) else None
@@ -415,15 +443,21 @@ android_escape = str.maketrans(
 )
 
 # Control codes are not valid in XML, and nonstandard whitespace needs escaping
-control_chars = compile(r"[\x00-\x19\x7F-\x9F]|[^\S ]|(?<= ) ")
+control_chars = compile(r"[\x00-\x1F\x7F-\x9F]|[^\S ]|(?<= ) ")
+
+# A literal % must not be read as the start of a placeholder.
+percent = compile(r"%(?=(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*.)")
+percent_before_text = compile(r"%(?=(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*(?:.|$))")
 
 
 def escape_char(ch: str) -> str:
     return f"\\u{ord(ch):04x}"
 
 
-def escape_part(src: str) -> str:
+def escape_part(src: str, before_text: bool = False) -> str:
     res = src.translate(android_escape)
+    pct = percent_before_text if before_text else percent
+    res = pct.sub(lambda m: escape_char(m.group()), res)
     return control_chars.sub(lambda m: escape_char(m.group()), res)
 
 
-- 
2.43.0


From 91c2193f29223fabf40bd4b3b81b0ad215a581cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:45 +0000
Subject: [PATCH 027/102] fix: unescape literal contents of Android xliff:g
 elements, keep empty ones, and skip comments within strings

---
 python/moz/l10n/formats/android/parse.py | 51 ++++++++++++++++--------
 1 file changed, 34 insertions(+), 17 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index b941d2a..295daf6 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 
 import logging
 from collections.abc import Callable, Iterable, Iterator
-from re import ASCII, compile, match
+from re import ASCII, Match, compile, match
 from typing import Literal, cast
 
 from lxml import etree
@@ -324,7 +324,7 @@ def parse_pattern(
         # https://developer.android.com/guide/topics/resources/providing-resources#ResourcesFromXml
         yield Expression(el.text, "reference")
     else:
-        parts = list(flatten(el))
+        parts = list(flatten(el, ascii_spaces, literal_quotes))
         if parts:
             if isinstance(parts[0], str):
                 parts[0] = parts[0].lstrip()
@@ -337,21 +337,23 @@ def parse_pattern(
         yield from parse_inline(spaced)
 
 
-def flatten(el: etree._Element) -> Iterator[str | Expression | Markup]:
+def flatten(
+    el: etree._Element, ascii_spaces: bool, literal_quotes: bool
+) -> Iterator[str | Expression | Markup]:
     if el.text:
         yield el.text
     for child in el:
         if isinstance(child, etree._Entity):
             yield Expression(VariableRef(child.name), "entity")
-        else:
+        elif not isinstance(child, (etree._Comment, etree._ProcessingInstruction)):
             name = (
                 f"{child.prefix}:{etree.QName(cast(str, child.tag)).localname}"
                 if child.prefix
                 else str(child.tag)
             )
             if child.tag == xliff_g:
-                body = list(flatten(child))
-                if any(
+                body = list(flatten(child, ascii_spaces, literal_quotes))
+                if not body or any(
                     (
                         isinstance(gc, Expression)
                         and gc.attributes.get("translate", None) == "no"
@@ -377,7 +379,7 @@ def flatten(el: etree._Element) -> Iterator[str | Expression | Markup]:
                                 arg = VariableRef(get_var_name(gc))
                                 attr["source"] = gc
                             else:
-                                arg = gc
+                                arg = unescape(gc, ascii_spaces, literal_quotes)
                             if options:
                                 yield Expression(arg, name, options, attributes=attr)
                             else:
@@ -388,13 +390,13 @@ def flatten(el: etree._Element) -> Iterator[str | Expression | Markup]:
                             yield gc
             else:
                 yield Markup("open", name, options=dict(child.attrib))
-                yield from flatten(child)
+                yield from flatten(child, ascii_spaces, literal_quotes)
                 yield Markup("close", name)
         if child.tail:
             yield child.tail
 
 
-double_quote = compile(r'(?<!\\)"')
+double_quote = compile(r'(?<!\\)((?:\\\\)*)"')
 tag_like = compile(r"<.+>")
 
 
@@ -414,7 +416,7 @@ def parse_quotes(
                         # Let's presume that double quotes near html-ish contents are intentional.
                         break
                     # All unescaped double quotes are consumed, even unpaired ones.
-                    prev = part[pos : m.start()]
+                    prev = part[pos : m.end() - 1]
                     if prev:
                         yield prev if quoted else spaces.sub(" ", prev)
                     quoted = not quoted
@@ -431,6 +433,26 @@ def parse_quotes(
             yield part
 
 
+escape_re = compile(r"\\u([0-9a-fA-F]{4})|\\(.)")
+
+
+def unescape_char(m: Match[str]) -> str:
+    if m[1]:
+        # Unicode escape
+        return chr(int(m[1], base=16))
+    else:
+        # Escaped character
+        return "\n" if m[2] == "n" else "\t" if m[2] == "t" else m[2]
+
+
+def unescape(src: str, ascii_spaces: bool, literal_quotes: bool) -> str:
+    """Unescape the literal contents of an <xliff:g>."""
+    return "".join(
+        escape_re.sub(unescape_char, cast(str, part))
+        for part in parse_quotes([src], ascii_spaces, literal_quotes)
+    )
+
+
 inline_re = compile(
     r"\\u([0-9a-fA-F]{4})|"
     r"\\(.)|"
@@ -465,13 +487,8 @@ def parse_inline(
                         acc += part[pos:start]
                 if at_br:
                     at_br = False
-                if m[1]:
-                    # Unicode escape
-                    acc += chr(int(m[1], base=16))
-                elif m[2]:
-                    # Escaped character
-                    c = m[2]
-                    acc += "\n" if c == "n" else "\t" if c == "t" else c
+                if m[1] or m[2]:
+                    acc += unescape_char(m)
                 elif m[3]:
                     # Escaped HTML element, e.g. &lt;b>
                     # HTML elements containing internal % formatting are not wrapped as literals
-- 
2.43.0


From 111993ce08a56c36a431bb4b07b47f293bb9d45d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:08:48 +0000
Subject: [PATCH 028/102] fix: consistent whitespace after Android HTML line
 breaks

---
 python/moz/l10n/formats/android/parse.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 295daf6..5f868b2 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -475,6 +475,7 @@ def parse_inline(
             if acc:
                 yield acc
                 acc = ""
+            at_br = False
             yield part
         else:
             pos = 0
@@ -545,7 +546,12 @@ def parse_inline(
                             VariableRef(name), func, attributes={"source": source}
                         )
                 pos = m.end()
-            acc += part[pos:]
+            if at_br and part[pos:].startswith(" "):
+                acc += "\n" + part[pos + 1 :]
+            else:
+                acc += part[pos:]
+            if pos < len(part):
+                at_br = False
     if acc:
         yield acc
 
-- 
2.43.0


From 1ccf87588c65475f92dcdeb23a7e89a99015e073 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:38 +0000
Subject: [PATCH 029/102] fix: keep all Android comments and plurals, and allow
 for comments within string arrays

---
 python/moz/l10n/formats/android/parse.py     | 25 +++++++++++++-------
 python/moz/l10n/formats/android/serialize.py | 13 ++++++----
 2 files changed, 25 insertions(+), 13 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 5f868b2..32781b3 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -155,13 +155,12 @@ def android_parse(
             elif el.tag == "plurals":
                 if el.text and not el.text.isspace():
                     log.warning(f"Unexpected text in {name} plurals: {el.text}")
-                else:
-                    value = parse_plurals(
-                        name, el, ascii_spaces, literal_quotes, comment.extend
-                    )
-                    entries.append(
-                        Entry((name,), value, comment=comment_str(comment), meta=meta)
-                    )
+                value = parse_plurals(
+                    name, el, ascii_spaces, literal_quotes, comment.extend
+                )
+                entries.append(
+                    Entry((name,), value, comment=comment_str(comment), meta=meta)
+                )
 
             elif el.tag == "string-array":
                 if el.text and not el.text.isspace():
@@ -187,6 +186,8 @@ def android_parse(
                         log.warning(
                             f"Unexpected text in {name} string-array: {item.tail}"
                         )
+                if comment:
+                    entries.append(Comment(comment_str(comment)))
 
             else:
                 es = etree.tostring(el, encoding="unicode")
@@ -195,6 +196,8 @@ def android_parse(
                 comment.clear()
         if el.tail and not el.tail.isspace():
             log.warning(f"Unexpected text in resource: {el.tail}")
+    if comment:
+        entries.append(Comment(comment_str(comment)))
     return res
 
 
@@ -255,7 +258,7 @@ def comment_str(body: list[str | None]) -> str:
                 lines.append(comment.replace("\n   - ", "\n").strip(" "))
             else:
                 lines.append(
-                    "\n".join(line.strip() for line in comment.splitlines()).strip("\n")
+                    "\n".join(line.strip() for line in comment.split("\n")).strip("\n")
                 )
     return "\n\n".join(lines).strip("\n")
 
@@ -296,6 +299,9 @@ def parse_plurals(
             key = item.attrib.get("quantity", None)
             if key not in plural_categories:
                 raise ValueError(f"Invalid quantity for {name} plurals item: {key}")
+            variant_key = (CatchallKey(key) if key == "other" else key,)
+            if variant_key in msg.variants:
+                raise ValueError(f"Duplicate quantity for {name} plurals item: {key}")
             if var_comment:
                 add_comment(
                     (f"{key}: {c}" for c in var_comment if c)
@@ -303,7 +309,7 @@ def parse_plurals(
                     else var_comment
                 )
                 var_comment.clear()
-            msg.variants[(CatchallKey(key) if key == "other" else key,)] = list(
+            msg.variants[variant_key] = list(
                 parse_pattern(item, ascii_spaces, literal_quotes)
             )
         else:
@@ -311,6 +317,7 @@ def parse_plurals(
             raise ValueError(f"Unsupported {name} plurals child: {cs}")
         if item.tail and not item.tail.isspace():
             log.warning(f"Unexpected text in {name} plurals: {item.tail}")
+    add_comment(var_comment)
     return msg
 
 
diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 8101f0f..3c29e9b 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -86,7 +86,6 @@ def android_serialize(
     root = etree.Element("resources", attrib=root_attrib, nsmap=root_nsmap)
 
     entities = []
-    string_array = None
     for section in resource.sections:
         if section.meta:
             raise ValueError("Section metadata is not supported")
@@ -101,6 +100,7 @@ def android_serialize(
             else:
                 raise ValueError(f"Unsupported section id: {section.id}")
 
+        string_array = None
         for entry in section.entries:
             if isinstance(entry, Entry):
                 if len(entry.id) not in (1, 2):
@@ -109,6 +109,7 @@ def android_serialize(
                 if not xml_name.fullmatch(name):
                     raise ValueError(f"Invalid entry name: {name}")
                 if len(entry.id) == 1:
+                    string_array = None
                     attrib = get_attrib(name, entry.meta)
                     if isinstance(entry.value, SelectMessage):
                         # <plurals>
@@ -131,8 +132,10 @@ def android_serialize(
                     if entry.comment and not trim_comments:
                         add_comment(string_array, entry.comment, False)
                     set_string_array_item(string_array, entry)
-            elif not trim_comments:
-                add_comment(string_array or root, entry.comment, True)
+            else:
+                string_array = None
+                if not trim_comments:
+                    add_comment(root, entry.comment, True)
 
     etree.cleanup_namespaces(root, {"xliff": xliff_ns})
 
@@ -250,7 +253,7 @@ def set_string_array_item(
         num = int(entry.id[1])
     except ValueError:
         raise ValueError(f"Unsupported entry id: {entry.id}")
-    if num != len(parent):
+    if num != len(parent.findall("item")):
         raise ValueError(f"String-array keys must be ordered: {entry.id}")
     if isinstance(entry.value, SelectMessage):
         raise ValueError(f"Unsupported message type for {entry.id}: {entry.value}")
@@ -273,6 +276,8 @@ def set_plural_message(plurals: etree._Element, msg: SelectMessage) -> None:
             key = key.value if has_other else "other"
         if key not in plural_categories:
             raise ValueError(f"Unsupported plural variant key: {keys}")
+        if any(prev.get("quantity") == key for prev in plurals.findall("item")):
+            raise ValueError(f"Duplicate plural variant key: {keys}")
         item = etree.SubElement(plurals, "item", attrib={"quantity": key})
         set_pattern(item, value)
         item.tail = "\n    "
-- 
2.43.0


From 90374aad6ee23a6765331a7fca6ecd82b6d1d03c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:55 +0000
Subject: [PATCH 030/102] fix: do not read an Android escape as a conversion,
 or drop namespace declarations

---
 python/moz/l10n/formats/android/parse.py     |  2 +-
 python/moz/l10n/formats/android/serialize.py | 10 +++++++---
 2 files changed, 8 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 32781b3..e9ef93c 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -464,7 +464,7 @@ inline_re = compile(
     r"\\u([0-9a-fA-F]{4})|"
     r"\\(.)|"
     r"(<[^%>]+>)|"
-    r"(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?.))"
+    r"(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?[^\\\n]))"
 )
 block_tag_re = compile(r"<(div|h[123456r]|p|d[dt]|li|/?[dou]l)\b")
 break_tag_re = compile(r"<[bh]r/?>")
diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 3c29e9b..14128a4 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -137,7 +137,11 @@ def android_serialize(
                 if not trim_comments:
                     add_comment(root, entry.comment, True)
 
-    etree.cleanup_namespaces(root, {"xliff": xliff_ns})
+    etree.cleanup_namespaces(
+        root,
+        {"xliff": xliff_ns},
+        keep_ns_prefixes=[ns for ns in root_nsmap if ns],
+    )
 
     # Can't use the built-in pretty-printing,
     # as standalone comments need a trailing empty line.
@@ -451,8 +455,8 @@ android_escape = str.maketrans(
 control_chars = compile(r"[\x00-\x1F\x7F-\x9F]|[^\S ]|(?<= ) ")
 
 # A literal % must not be read as the start of a placeholder.
-percent = compile(r"%(?=(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*.)")
-percent_before_text = compile(r"%(?=(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*(?:.|$))")
+percent = compile(r"%(?=(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*[^\\])")
+percent_before_text = compile(r"%(?=(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*(?:[^\\]|$))")
 
 
 def escape_char(ch: str) -> str:
-- 
2.43.0


From dbc86c152398cb9bb471e37a0bdc596921051d29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:01 +0000
Subject: [PATCH 031/102] fix: unescape HTML elements within Android strings,
 whose escapes grew on each round trip

---
 python/moz/l10n/formats/android/parse.py     | 19 ++++++++++++-------
 python/moz/l10n/formats/android/serialize.py | 10 +++++++---
 2 files changed, 19 insertions(+), 10 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index e9ef93c..c7e8e3d 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -347,12 +347,16 @@ def parse_pattern(
 def flatten(
     el: etree._Element, ascii_spaces: bool, literal_quotes: bool
 ) -> Iterator[str | Expression | Markup]:
-    if el.text:
-        yield el.text
+    text = el.text or ""
     for child in el:
+        if isinstance(child, (etree._Comment, etree._ProcessingInstruction)):
+            text += child.tail or ""
+            continue
+        if text:
+            yield text
         if isinstance(child, etree._Entity):
             yield Expression(VariableRef(child.name), "entity")
-        elif not isinstance(child, (etree._Comment, etree._ProcessingInstruction)):
+        else:
             name = (
                 f"{child.prefix}:{etree.QName(cast(str, child.tag)).localname}"
                 if child.prefix
@@ -399,8 +403,9 @@ def flatten(
                 yield Markup("open", name, options=dict(child.attrib))
                 yield from flatten(child, ascii_spaces, literal_quotes)
                 yield Markup("close", name)
-        if child.tail:
-            yield child.tail
+        text = child.tail or ""
+    if text:
+        yield text
 
 
 double_quote = compile(r'(?<!\\)((?:\\\\)*)"')
@@ -464,7 +469,7 @@ inline_re = compile(
     r"\\u([0-9a-fA-F]{4})|"
     r"\\(.)|"
     r"(<[^%>]+>)|"
-    r"(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?[^\\\n]))"
+    r"(%(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*([tT]?[^\\\s]))"
 )
 block_tag_re = compile(r"<(div|h[123456r]|p|d[dt]|li|/?[dou]l)\b")
 break_tag_re = compile(r"<[bh]r/?>")
@@ -507,7 +512,7 @@ def parse_inline(
                     elif acc:
                         yield acc
                         acc = ""
-                    yield Expression(tag, "html")
+                    yield Expression(escape_re.sub(unescape_char, tag), "html")
                     at_br = bool(break_tag_re.fullmatch(tag))
                 else:
                     if acc:
diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 14128a4..7afc4e3 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -349,7 +349,11 @@ def set_pattern(
                         node.text = str(source)
                 else:
                     if isinstance(part.arg, str):
-                        node.text = escape_part(part.arg)
+                        source = escape_part(part.arg)
+                        if source.startswith(("%", "{")):
+                            source = escape_char(source[0]) + source[1:]
+                        if source:
+                            node.text = source
                     elif isinstance(part.arg, VariableRef):
                         node.text = part.arg.name
             elif ent_name:
@@ -455,8 +459,8 @@ android_escape = str.maketrans(
 control_chars = compile(r"[\x00-\x1F\x7F-\x9F]|[^\S ]|(?<= ) ")
 
 # A literal % must not be read as the start of a placeholder.
-percent = compile(r"%(?=(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*[^\\])")
-percent_before_text = compile(r"%(?=(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*(?:[^\\]|$))")
+percent = compile(r"%(?=(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*[^\\\s])")
+percent_before_text = compile(r"%(?=(?:[1-9]\$|<)?[-#+ 0,(]?[0-9.]*(?:[^\\\s]|$))")
 
 
 def escape_char(ch: str) -> str:
-- 
2.43.0


From 08a9bd5e08b58ab83915320fe7aaf5eed86320c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:21 +0000
Subject: [PATCH 032/102] fix: keep whitespace within XLIFF contents, and set
 XLIFF section metadata and comments only on the section's own element

---
 python/moz/l10n/formats/xliff/common.py    | 13 +++++----
 python/moz/l10n/formats/xliff/serialize.py | 32 +++++++++++++++-------
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/common.py b/python/moz/l10n/formats/xliff/common.py
index bc3f1b9..255ad8a 100644
--- a/python/moz/l10n/formats/xliff/common.py
+++ b/python/moz/l10n/formats/xliff/common.py
@@ -27,20 +27,23 @@ xliff_ns = {
     "urn:oasis:names:tc:xliff:document:1.2",
 }
 xml_ns = "http://www.w3.org/XML/1998/namespace"
+# Whitespace is significant within these elements
+content_names = ("source", "target", "seg-source")
 xcode_tool_id = Metadata("header/tool/@tool-id", "com.apple.dt.xcode")
 
 
 def element_as_metadata(
-    el: _Element, base: str, with_attrib: bool
+    el: _Element, base: str, with_attrib: bool, is_content: bool = False
 ) -> Iterator[Metadata]:
     is_empty = True
+    is_content = is_content or pretty_name(el, str(el.tag)) in content_names
     seen: dict[str, int] = defaultdict(int)
     if with_attrib:
         am = attrib_as_metadata(el, base)
         if am:
             yield from am
             is_empty = False
-    if el.text and not el.text.isspace():
+    if el.text and (is_content or not el.text.isspace()):
         yield Metadata(base, el.text)
         is_empty = False
     for child in el:
@@ -52,11 +55,11 @@ def element_as_metadata(
             child_base = f"{base}/{name}" if base else name
             if idx > 1:
                 child_base += f"[{idx}]"
-            yield from element_as_metadata(child, child_base, True)
+            yield from element_as_metadata(child, child_base, True, is_content)
             seen[name] = idx
         else:
             raise ValueError(f"Unsupported metadata element in {base}: {el}")
-        if child.tail and not child.tail.isspace():
+        if child.tail and (is_content or not child.tail.isspace()):
             yield Metadata(base, child.tail)
         is_empty = False
     if is_empty and with_attrib:
@@ -93,7 +96,7 @@ def pretty_name(el: _Element, name: str) -> str:
 
 def clark_name(nsmap: dict[str | None, str], name: str) -> str:
     """See https://lxml.de/tutorial.html#namespaces"""
-    if ":" not in name:
+    if ":" not in name or name.startswith("{"):
         return name
     ns, local = name.split(":", 1)
     if ns in nsmap:
diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 8e08d62..7abf3d5 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -33,7 +33,7 @@ from ...model import (
     SelectMessage,
     VariableRef,
 )
-from .common import clark_name
+from .common import clark_name, content_names
 
 
 def xliff_serialize(
@@ -100,18 +100,23 @@ def xliff_serialize(
         parent = prev[parent_key] if parent_key else root
         for id_part in section.id[len(parent_key) :]:
             parent_key += (id_part,)
+            # Metadata and comment of the section do not apply to its implicit parents
+            is_section = len(parent_key) == len(section.id)
             if parent == root:
-                file = etree.SubElement(root, "file", {"original": id_part})
-                assign_metadata(file, section.meta, trim_comments)
-                parent = etree.SubElement(file, "body")
+                section_el = etree.SubElement(root, "file", {"original": id_part})
+                if is_section:
+                    assign_metadata(section_el, section.meta, trim_comments)
+                parent = etree.SubElement(section_el, "body")
             else:
                 parent = etree.SubElement(parent, "group", {"id": id_part})
-                assign_metadata(parent, section.meta, trim_comments)
+                section_el = parent
+                if is_section:
+                    assign_metadata(section_el, section.meta, trim_comments)
+            if is_section and section.comment and not trim_comments:
+                comment = comment_body(section.comment, 2 * len(section.id))
+                section_el.addprevious(etree.Comment(comment))
             prev[parent_key] = parent
         indent = 2 * len(section.id)
-        if section.comment:
-            comment = etree.Comment(comment_body(section.comment, indent))
-            parent.addprevious(comment)
 
         indent += 2
         for entry in section.entries:
@@ -175,6 +180,9 @@ def xliff_serialize(
             else:
                 fn = section.id[0]
                 raise ValueError(f"Unsupported message {id} in file: {fn}")
+    for content in root.iter(*content_names):
+        if not content.text and len(content) > 0:
+            content.text = ""  # Avoid indenting contents
     yield etree.tostring(root, encoding="unicode", pretty_print=True)
 
 
@@ -183,7 +191,7 @@ def xliff_serialize_message(msg: Message) -> str:
         raise ValueError(f"Unsupported message: {msg}")
     target = etree.Element("target")
     set_pattern(target, msg.pattern)
-    str = etree.tostring(target, encoding="unicode", pretty_print=True).strip()
+    str = etree.tostring(target, encoding="unicode")
     if str == "<target/>":
         return ""
     if not str.startswith("<target>"):
@@ -226,7 +234,9 @@ def add_unit(
         and unit.find("note") is None
     ):
         if msg_el is None:
-            prev_el = unit.find("target") or unit.find("source")
+            prev_el = unit.find("target")
+            if prev_el is None:
+                prev_el = unit.find("source")
             if prev_el is None:
                 raise ValueError(f"Invalid entry with no source: {unit}")
         else:
@@ -488,3 +498,5 @@ def set_pattern(el: etree._Element, pattern: Pattern) -> None:
                 add_text(part_source)
             else:
                 raise ValueError(f"Unsupported expression: {part}")
+    if parent != el:
+        raise ValueError(f"Missing close element for {parent}")
-- 
2.43.0


From cd91d3c0dd71cac8667415bc7e45bdbd195ee908 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:36:21 +0000
Subject: [PATCH 033/102] fix: tell empty XLIFF elements from missing ones, and
 do not drop or misread comments, duplicates and unsupported XLIFF contents

---
 python/moz/l10n/formats/xliff/parse.py        | 16 +++++++++++--
 .../l10n/formats/xliff/parse_trans_unit.py    | 24 +++++++++++++------
 2 files changed, 31 insertions(+), 9 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse.py b/python/moz/l10n/formats/xliff/parse.py
index 2c8c8f9..94daf55 100644
--- a/python/moz/l10n/formats/xliff/parse.py
+++ b/python/moz/l10n/formats/xliff/parse.py
@@ -107,13 +107,15 @@ def xliff_parse(
             meta = attrib_as_metadata(file, None, ("original",))
             entries: list[Entry[Message] | Comment] = []
             body = None
+            if file.text and not file.text.isspace():
+                raise ValueError(f"Unexpected text in <file>: {file.text}")
             for child in file:
                 if isinstance(child, etree._Comment):
                     entries.append(Comment(comment_str(child.text)))
                 elif child.tag == f"{ns}header":
                     meta += element_as_metadata(child, "header", True)
                 elif child.tag == f"{ns}body":
-                    if body:
+                    if body is not None:
                         raise ValueError(f"Duplicate <body> in <file>: {file}")
                     body = child
                 else:
@@ -162,6 +164,14 @@ def xliff_parse(
                     )
                 if unit.tail and not unit.tail.isspace():
                     raise ValueError(f"Unexpected text in <body>: {unit.tail}")
+        else:
+            raise ValueError(f"Unsupported <{file.tag!s}> element in <xliff>")
+    if comment:
+        # There is no following file
+        if res.sections:
+            res.sections[-1].entries.append(Comment(comment_str(comment)))
+        else:
+            res.comment = f"{res.comment}\n\n{comment_str(comment)}".strip("\n")
     return res
 
 
@@ -220,6 +230,8 @@ def parse_bin_unit(unit: etree._Element) -> Entry[Message]:
         raise ValueError(f'Missing "id" attribute for <bin-unit>: {unit}')
     meta = attrib_as_metadata(unit, None, ("id",))
     meta += element_as_metadata(unit, "", False)
+    if any(m.key == "" for m in meta):
+        raise ValueError(f"Unexpected text in <bin-unit>: {unit}")
     msg = PatternMessage([Expression(None, attributes={"bin-unit": True})])
     return Entry((id,), msg, meta=meta)
 
@@ -239,6 +251,6 @@ def comment_str(body: list[str] | str) -> str:
                 lines.append(comment.replace("\n   - ", "\n").strip(" "))
             else:
                 lines.append(
-                    "\n".join(line.strip() for line in comment.splitlines()).strip("\n")
+                    "\n".join(line.strip() for line in comment.split("\n")).strip("\n")
                 )
     return "\n\n".join(lines).strip("\n")
diff --git a/python/moz/l10n/formats/xliff/parse_trans_unit.py b/python/moz/l10n/formats/xliff/parse_trans_unit.py
index 0dcfad7..de01af3 100644
--- a/python/moz/l10n/formats/xliff/parse_trans_unit.py
+++ b/python/moz/l10n/formats/xliff/parse_trans_unit.py
@@ -16,7 +16,6 @@ from __future__ import annotations
 
 from collections import defaultdict
 from collections.abc import Iterator
-from typing import cast
 
 from lxml import etree
 
@@ -50,21 +49,27 @@ def parse_trans_unit(
     for el in unit:
         if isinstance(el, etree._Comment):
             meta.append(Metadata("comment()", el.text))
+        elif not isinstance(el.tag, str):
+            raise ValueError(f"Unsupported content in <trans-unit> {id}: {el}")
         else:
-            name = pretty_name(el, str(el.tag))
+            name = pretty_name(el, el.tag)
             if name == msg_name:
-                if msg_el:
+                if msg_el is not None:
                     raise ValueError(
                         f"Duplicate <{msg_name}> in <trans-unit> {id}: {unit}"
                     )
                 msg_el = el
-                meta += attrib_as_metadata(el, msg_name)
+                if el.attrib:
+                    meta += attrib_as_metadata(el, msg_name)
+                elif not any(parse_pattern(el, is_xcode)):
+                    # Distinguish an empty element from a missing one
+                    meta.append(Metadata(msg_name, ""))
             else:
                 idx = seen[name] + 1
                 base = f"{name}[{idx}]" if idx > 1 else name
                 meta += element_as_metadata(el, base, True)
                 seen[name] = idx
-                if name == "note" and el.text:
+                if name == "note" and el.text and not el.text.isspace():
                     author = el.attrib.get("from", "")
                     note = el.text.strip()
                     notes.append(f"{author}: {note}" if author else note)
@@ -86,13 +91,18 @@ def parse_pattern(
         else:
             yield el.text
     for child in el:
-        q = etree.QName(cast(str, child.tag))
+        if not isinstance(child.tag, str):
+            # Comments and processing instructions are not a part of the message
+            if child.tail:
+                yield child.tail
+            continue
+        q = etree.QName(child.tag)
         ns = q.namespace
         name = q.localname if not ns or ns in xliff_ns else q.text
         options: dict[str, str | VariableRef] = dict(child.attrib)
         if name in ("x", "bx", "ex"):
             yield Markup("standalone", name, options)
-        elif isinstance(child.tag, str):
+        else:
             yield Markup("open", name, options)
             yield from parse_pattern(child, is_xcode)
             yield Markup("close", name)
-- 
2.43.0


From 0e3eae30e05401921af971fbf2f078178135a7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:27 +0000
Subject: [PATCH 034/102] fix: keep Xcode notes and empty targets, match Xcode
 substitutions by name, and do not fail on untranslated ones

---
 python/moz/l10n/formats/xliff/parse_xcode.py | 83 +++++++++++++++-----
 python/moz/l10n/formats/xliff/serialize.py   | 30 +++++--
 2 files changed, 89 insertions(+), 24 deletions(-)

diff --git a/python/moz/l10n/formats/xliff/parse_xcode.py b/python/moz/l10n/formats/xliff/parse_xcode.py
index 6038374..77cd261 100644
--- a/python/moz/l10n/formats/xliff/parse_xcode.py
+++ b/python/moz/l10n/formats/xliff/parse_xcode.py
@@ -18,6 +18,7 @@ from collections import defaultdict
 from collections.abc import Iterator
 from copy import deepcopy
 from dataclasses import dataclass, field
+from itertools import chain
 from re import compile
 from typing import Literal, NoReturn, cast
 
@@ -27,6 +28,7 @@ from ...model import (
     CatchallKey,
     Entry,
     Expression,
+    Markup,
     Message,
     Metadata,
     Pattern,
@@ -66,7 +68,7 @@ plural_categories = ("zero", "one", "two", "few", "many", "other")
 variant_key = compile(r"%#@([a-zA-Z_]\w*)@")
 # https://developer.apple.com/library/archive/documentation/Cocoa/Conceptual/Strings/Articles/formatSpecifiers.html
 printf = compile(
-    r"%([1-9]\$)?(?:#@([a-zA-Z_]\w*)@|[-#+ 0,]?[0-9.]*(?:(?:hh?|ll?|qztj)[douxX]|L[aAeEfFgG]|[@%aAcCdDeEfFgGoOspSuUxX]))"
+    r"%([1-9]\$)?(?:#@([a-zA-Z_]\w*)@|[-#+ 0,]?[0-9.]*(?:(?:hh?|ll?|[qztj])[douxX]|L[aAeEfFgG]|[@%aAcCdDeEfFgGoOspSuUxX]))"
 )
 not_first_placeholder = compile(r"%[2-9]\$")
 
@@ -107,7 +109,10 @@ def parse_xliff_xcstrings(
                     if isinstance(el, Expression)
                     and isinstance(el.arg, VariableRef)
                     and "substitution" in el.attributes
+                    and any(el.arg.name == name for name, _ in data.substitutions)
                 }
+                if any(name not in sub_vars for name, _ in data.substitutions):
+                    error("Unsupported variance")
                 for name in sub_vars:
                     keys: list[tuple[str | CatchallKey, ...]] = [
                         (k if k != "other" else CatchallKey(k),)
@@ -134,6 +139,8 @@ def parse_xliff_xcstrings(
                         (k if k != "other" else CatchallKey(k),)
                         for _, k in data.substitutions
                     ]
+            if any((name, "other") not in data.substitutions for name in sub_vars):
+                error('Missing "other" variant')
             msg = SelectMessage(
                 declarations=sub_vars,
                 selectors=tuple(VariableRef(name) for name in sub_vars),
@@ -164,7 +171,9 @@ def parse_xliff_xcstrings(
                 var_ph = {
                     el.attributes.get("index", True): el
                     for el in var_pattern
-                    if isinstance(el, Expression) and isinstance(el.arg, VariableRef)
+                    if isinstance(el, Expression)
+                    and isinstance(el.arg, VariableRef)
+                    and "substitution" not in el.attributes
                 }
                 sub_var_ph = var_ph.get(sub_idx, None)
                 if sub_var_ph is not None:
@@ -176,13 +185,13 @@ def parse_xliff_xcstrings(
                 sel_idx = msg.selectors.index(VariableRef(var_name))
                 for keys_, pattern in msg.variants.items():
                     if str(keys_[sel_idx]) == id:
-                        sub_ph_idx = next(
-                            idx
-                            for idx, el in enumerate(pattern)
-                            if isinstance(el, Expression)
-                            and el.attributes.get("substitution", None) == sub_idx
-                        )
-                        pattern[sub_ph_idx : sub_ph_idx + 1] = var_pattern
+                        if sub_pattern:
+                            pattern[:] = chain.from_iterable(
+                                var_pattern if is_substitution(el, var_name) else (el,)
+                                for el in pattern
+                            )
+                        else:
+                            pattern[:] = var_pattern
             for pattern in msg.variants.values():
                 pattern_: Pattern = []
                 last = None
@@ -312,12 +321,12 @@ def parse_xliff_xcstrings_unit(
     target = unit_data.target
     meta = attrib_as_metadata(unit_data.unit, None, ("id",))
     comments: list[str] = []
+    meta += notes_as_metadata(unit_data, "")
     for note in unit_data.notes:
-        meta += element_as_metadata(note, "note", True)
         if note.text and not note.text.isspace():
             comments.append(note.text.strip())
     if from_source:
-        meta += attrib_as_metadata(source, "source")
+        meta += message_el_as_metadata(source, "source")
         if target is not None:
             meta += element_as_metadata(target, "target", True)
         pattern_src = source.text
@@ -326,7 +335,7 @@ def parse_xliff_xcstrings_unit(
         if target is None:
             pattern_src = None
         else:
-            meta += attrib_as_metadata(target, "target")
+            meta += message_el_as_metadata(target, "target")
             pattern_src = target.text
     entry_data: tuple[list[Metadata], str, Pattern] = (
         meta,
@@ -334,27 +343,36 @@ def parse_xliff_xcstrings_unit(
         list(parse_xcode_pattern(pattern_src)),
     )
 
+    def error(message: str) -> NoReturn:
+        raise ValueError(f'{message} <trans-unit id="{unit.attrib["id"]}">')
+
     if len(id_parts) == 1:
+        if units[msg_id].base is not None:
+            error("Duplicate")
         units[msg_id].base = entry_data
         return
     if len(id_parts) == 2:
         dim, *key = id_parts[1].split(".")
         if dim == "plural":
             if len(key) == 1:
+                if key[0] in units[msg_id].plural:
+                    error("Duplicate")
                 units[msg_id].plural[key[0]] = entry_data
                 return
         elif dim == "substitutions":
             if len(key) == 3 and key[1] == "plural":
+                if (key[0], key[2]) in units[msg_id].substitutions:
+                    error("Duplicate")
                 units[msg_id].substitutions[(key[0], key[2])] = entry_data
                 return
         elif dim == "device":
             if len(key) == 1:
+                if key[0] in units[msg_id].device:
+                    error("Duplicate")
                 units[msg_id].device[key[0]] = entry_data
                 return
 
-    raise ValueError(
-        f'Unsupported Xcode id syntax in <trans-unit id="{unit.attrib["id"]}">'
-    )
+    error("Unsupported Xcode id syntax in")
 
 
 def parse_xliff_stringsdict(
@@ -376,6 +394,8 @@ def parse_xliff_stringsdict(
 
     entries = []
     for msg_id, plural in plurals.items():
+        if "other" not in plural.variants:
+            raise ValueError(f'Missing "other" variant for Xcode message {msg_id}')
         selector = Expression(
             VariableRef(plural.var_name),
             "number",
@@ -386,8 +406,12 @@ def parse_xliff_stringsdict(
         meta: list[Metadata] = []
         if plural.format_key:
             meta += attrib_as_metadata(plural.format_key.unit, "format", ("id",))
-            if plural.format_key.target is not None:
-                meta += attrib_as_metadata(plural.format_key.target, "format/target")
+            target = plural.format_key.target
+            if target is not None:
+                meta += attrib_as_metadata(target, "format/target")
+                if target.text and target.text != plural.format_key.source.text:
+                    meta.append(Metadata("format/target", target.text))
+            meta += notes_as_metadata(plural.format_key, "format/")
         msg = SelectMessage(
             declarations={plural.var_name: selector},
             selectors=(VariableRef(plural.var_name),),
@@ -405,8 +429,9 @@ def parse_xliff_stringsdict(
                 if variant.target is None:
                     pattern_src = None
                 else:
-                    meta += attrib_as_metadata(variant.target, f"{key}/target")
+                    meta += message_el_as_metadata(variant.target, f"{key}/target")
                     pattern_src = variant.target.text
+            meta += notes_as_metadata(variant, f"{key}/")
             msg.variants[(CatchallKey("other") if key == "other" else key,)] = list(
                 parse_xcode_pattern(pattern_src)
             )
@@ -494,6 +519,28 @@ def get_xcode_unit_data(ns: str, unit: etree._Element) -> XcodeUnitData:
     return XcodeUnitData(unit, source, target, notes)
 
 
+def notes_as_metadata(data: XcodeUnitData, base: str) -> Iterator[Metadata]:
+    for idx, note in enumerate(data.notes, start=1):
+        name = f"{base}note[{idx}]" if idx > 1 else f"{base}note"
+        yield from element_as_metadata(note, name, True)
+
+
+def message_el_as_metadata(el: etree._Element, base: str) -> list[Metadata]:
+    meta = attrib_as_metadata(el, base)
+    if not meta and not el.text:
+        # Distinguish an empty element from a missing one
+        meta.append(Metadata(base, ""))
+    return meta
+
+
+def is_substitution(part: str | Expression | Markup, name: str) -> bool:
+    return (
+        isinstance(part, Expression)
+        and "substitution" in part.attributes
+        and part.arg == VariableRef(name)
+    )
+
+
 def parse_xcode_pattern(src: str | None) -> Iterator[str | Expression]:
     if not src:
         return
diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 7abf3d5..56c1492 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -34,6 +34,7 @@ from ...model import (
     VariableRef,
 )
 from .common import clark_name, content_names
+from .parse_xcode import is_substitution
 
 
 def xliff_serialize(
@@ -337,6 +338,8 @@ def add_xliff_stringsdict_plural(
                 raise ValueError(f"Missing {key}/source metadata for {id}")
             target = unit.find("target")
             if target is None:
+                if not text:
+                    continue
                 target = etree.Element("target")
                 source.addnext(target)
             target.text = text
@@ -348,9 +351,9 @@ def add_xcstrings_selectmessage(
     source_entries: bool,
     trim_comments: bool,
 ) -> None:
-    if entry.comment:
-        # TODO
-        pass
+    # Comments read from a file are also included in the metadata
+    has_notes = any("note" in m.key.split("/") for m in entry.meta)
+    comment = "" if has_notes else entry.comment
     msg = entry.value
     msg_id = entry.id[0]
 
@@ -373,12 +376,25 @@ def add_xcstrings_selectmessage(
                 base_meta.append(m)
         unit = etree.SubElement(parent, "trans-unit", {"id": msg_id})
         pattern: Pattern = [sel] if "source" in sel.attributes else []
-        add_unit(unit, "", base_meta, pattern, source_entries, trim_comments)
+        # Variants without a translation still contain the substitution
+        has_sub = [
+            any(is_substitution(part, sub_name) for part in pattern)
+            for pattern in msg.variants.values()
+        ]
+        if msg.variants and all(has_sub):
+            pattern = next(iter(msg.variants.values()))
+        add_unit(unit, comment, base_meta, pattern, source_entries, trim_comments)
         for keys, pattern in msg.variants.items():
+            if any(is_substitution(part, sub_name) for part in pattern):
+                pattern = []
             key = str(keys[0]) or "other"
+            if source_entries and not pattern:
+                sub_meta[key].append(Metadata("source", ""))
             id = f"{msg_id}|==|substitutions.{sub_name}.plural.{key}"
             unit = etree.SubElement(parent, "trans-unit", {"id": id})
-            add_unit(unit, "", sub_meta[key], pattern, source_entries, trim_comments)
+            add_unit(
+                unit, comment, sub_meta[key], pattern, source_entries, trim_comments
+            )
         return
 
     var_type = None
@@ -397,8 +413,10 @@ def add_xcstrings_selectmessage(
             m_key, *parts = m.key.split("/")
             if m_key == key:
                 meta.append(Metadata("/".join(parts), m.value))
+        if source_entries and not pattern:
+            meta.append(Metadata("source", ""))
         unit = etree.SubElement(parent, "trans-unit", {"id": id})
-        add_unit(unit, "", meta, pattern, source_entries, trim_comments)
+        add_unit(unit, comment, meta, pattern, source_entries, trim_comments)
 
 
 def assign_metadata(
-- 
2.43.0


From 27cb3afa9cb18c641cfabad3ba56ed7a1aa95a5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:35 +0000
Subject: [PATCH 035/102] fix: reject a trailing backslash and missing space
 before a function in MF2 syntax, and accept marks after variant keys

---
 python/moz/l10n/formats/mf2/message_parser.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/mf2/message_parser.py b/python/moz/l10n/formats/mf2/message_parser.py
index 95b5735..aca9c94 100644
--- a/python/moz/l10n/formats/mf2/message_parser.py
+++ b/python/moz/l10n/formats/mf2/message_parser.py
@@ -192,6 +192,7 @@ class MF2Parser:
                 keys.append(self.literal())
             has_space = self.req_space()
             if not has_space:
+                self.skip_bidi()
                 break
             ch = self.char()
         if len(keys) != num_sel:
@@ -242,6 +243,8 @@ class MF2Parser:
             else:
                 text += ch
             self.pos += 1
+        if at_esc:
+            raise MF2ParseError(self, "Invalid escape: \\")
         return text
 
     def expression_or_markup(self) -> Expression | Markup:
@@ -255,16 +258,19 @@ class MF2Parser:
     def expression_body(self, ch: str) -> Expression:
         arg: str | VariableRef | None = None
         arg_end = self.pos
+        has_space = True
         if ch == "$":
             arg = self.variable()
             arg_end = self.pos
+            has_space = self.req_space()
             ch = self.skip_opt_space()
         elif ch != ":":
             arg = self.literal()
             arg_end = self.pos
+            has_space = self.req_space()
             ch = self.skip_opt_space()
         if ch == ":":
-            if arg and self.pos == arg_end:
+            if not has_space:
                 raise MF2ParseError(self, "Expected space")
             function = self.identifier(1)
             options = self.options()
-- 
2.43.0


From b0f554d6111ac9a02f89646ed78374b7d4bf8f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:35 +0000
Subject: [PATCH 036/102] fix: serialize all MF2 literals and leading text as
 valid syntax, order declarations by their dependencies, and match only
 decimal numbers as number literals

---
 python/moz/l10n/formats/mf2/serialize.py | 21 ++++++------------
 python/moz/l10n/formats/mf2/validate.py  | 28 ++++++++++--------------
 2 files changed, 18 insertions(+), 31 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/serialize.py b/python/moz/l10n/formats/mf2/serialize.py
index 1c90c29..1d7ad14 100644
--- a/python/moz/l10n/formats/mf2/serialize.py
+++ b/python/moz/l10n/formats/mf2/serialize.py
@@ -30,7 +30,7 @@ from ...model import (
 )
 from .validate import name_re, number_re
 
-complex_start_re = compile(r"[\t\n\r \u3000]*\.")
+complex_start_re = compile(r"[\t\n\r \u3000\u061c\u200e\u200f\u2066-\u2069]*\.")
 literal_esc_re = compile(r"[\\|]")
 text_esc_re = compile(r"[\\{}]")
 
@@ -42,17 +42,10 @@ def mf2_serialize_message(message: Message) -> str:
     Does not validate the message before serialization;
     for that, use `mf2_validate_message()`.
     """
-    if (
-        isinstance(message, PatternMessage)
-        and not message.declarations
-        and (
-            not message.pattern
-            or not isinstance(part0 := message.pattern[0], str)
-            or not complex_start_re.match(part0)
-        )
-    ):
-        # simple message
-        return "".join(mf2_serialize_pattern(message.pattern))
+    if isinstance(message, PatternMessage) and not message.declarations:
+        simple = "".join(mf2_serialize_pattern(message.pattern))
+        if not complex_start_re.match(simple):
+            return simple
 
     res = ""
     for name, expr in message.declarations.items():
@@ -103,10 +96,10 @@ def _quoted_pattern(pattern: Pattern) -> Iterator[str]:
 
 def _expression(expr: Expression) -> Iterator[str]:
     yield "{"
-    if expr.arg:
+    if expr.arg is not None:
         yield _value(expr.arg)
     if expr.function:
-        yield f" :{expr.function}" if expr.arg else f":{expr.function}"
+        yield f" :{expr.function}" if expr.arg is not None else f":{expr.function}"
     yield from _options(expr.options)
     yield from _attributes(expr.attributes)
     yield "}"
diff --git a/python/moz/l10n/formats/mf2/validate.py b/python/moz/l10n/formats/mf2/validate.py
index d379ace..dc701d7 100644
--- a/python/moz/l10n/formats/mf2/validate.py
+++ b/python/moz/l10n/formats/mf2/validate.py
@@ -15,7 +15,6 @@
 from __future__ import annotations
 
 from collections.abc import Iterable, Mapping
-from functools import cmp_to_key
 from re import compile
 from typing import Literal
 
@@ -32,7 +31,7 @@ from ...model import (
 _name_start = r"a-zA-Z_\xC0-\xD6\xD8-\xF6\xF8-\u02FF\u0370-\u037D\u037F-\u061B\u061D-\u1FFF\u200C-\u200D\u2070-\u218F\u2C00-\u2FEF\u3001-\uD7FF\uF900-\uFDCF\uFDF0-\uFFFC\U00010000-\U000EFFFF"
 name_re = compile(f"[{_name_start}][{_name_start}0-9-.\xb7\u0300-\u036f\u203f-\u2040]*")
 identifier_re = compile(f"{name_re.pattern}(?::{name_re.pattern})?")
-number_re = compile(r"-?(?:0|(?:[1-9]\d*))(?:.\d+)?(?:[eE][-+]?\d+)?")
+number_re = compile(r"-?(?:0|(?:[1-9][0-9]*))(?:\.[0-9]+)?(?:[eE][-+]?[0-9]+)?")
 
 
 class MF2ValidationError(ValueError):
@@ -106,17 +105,6 @@ def _validate_declarations(declarations: dict[str, Expression]) -> None:
                     deep_dependencies(dep, res)
         return res
 
-    def cmp_decl_data(a: tuple[str, bool], b: tuple[str, bool]) -> int:
-        a_name, a_input = a
-        b_name, b_input = b
-        if a_name in dependencies[b_name]:
-            return -1
-        if b_name in dependencies[a_name]:
-            return 1
-        if a_input != b_input:
-            return -1 if a_input else 1
-        return -1 if a_name < b_name else 1
-
     if not isinstance(declarations, Mapping):
         raise MF2ValidationError(f"Invalid declarations: {declarations}")
     for name, expr in declarations.items():
@@ -143,10 +131,16 @@ def _validate_declarations(declarations: dict[str, Expression]) -> None:
         dependencies[name] = deps
 
     if len(declarations) > 1:
-        decl_data.sort(key=cmp_to_key(cmp_decl_data))
-        inserts = [(name, declarations.pop(name)) for name, _ in decl_data[1:]]
-        for name, expr in inserts:
-            declarations[name] = expr
+        # Each declaration after its dependencies, otherwise inputs first & by name
+        decl_data.sort(key=lambda data: (not data[1], data[0]))
+        while decl_data:
+            data = next(
+                data
+                for data in decl_data
+                if not any(name in dependencies[data[0]] for name, _ in decl_data)
+            )
+            decl_data.remove(data)
+            declarations[data[0]] = declarations.pop(data[0])
 
 
 def _validate_pattern(pattern: Pattern) -> None:
-- 
2.43.0


From 8644633d2d1adb0aec84d89f619dfd0580c516f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:11:33 +0000
Subject: [PATCH 037/102] fix: escape backslashes in JSON entry ids, and
 include declarations of empty patterns in entry JSON

---
 python/moz/l10n/message/from_json.py | 9 ++++-----
 python/moz/l10n/message/to_json.py   | 4 +++-
 2 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/message/from_json.py b/python/moz/l10n/message/from_json.py
index a19bb63..e9776db 100644
--- a/python/moz/l10n/message/from_json.py
+++ b/python/moz/l10n/message/from_json.py
@@ -15,7 +15,7 @@
 from __future__ import annotations
 
 from collections.abc import Mapping
-from re import split
+from re import findall, sub
 from typing import Any, Literal
 
 from ..model import (
@@ -39,10 +39,9 @@ def entry_from_json(key: str, json: dict[str, Any]) -> Entry[Message]:
 
     May raise `MF2ValidationError`.
     """
-    if r"\." in key:
-        id = tuple(str(part).replace(r"\.", ".") for part in split(r"(?<!\\)\.", key))
-    else:
-        id = tuple(key.split("."))
+    # Each part may contain \. and \\ escapes
+    parts = findall(r"(?:^|\.)((?:[^.\\]|\\[.\\]?)*)", key)
+    id = tuple(sub(r"\\([.\\])", r"\1", part) for part in parts)
     meta = [Metadata(key, value) for key, value in json["@"]] if "@" in json else []
 
     return Entry(
diff --git a/python/moz/l10n/message/to_json.py b/python/moz/l10n/message/to_json.py
index 257de8a..564af9a 100644
--- a/python/moz/l10n/message/to_json.py
+++ b/python/moz/l10n/message/to_json.py
@@ -14,6 +14,7 @@
 
 from __future__ import annotations
 
+from re import sub
 from typing import Any
 
 from ..model import (
@@ -35,7 +36,7 @@ def entry_to_json(entry: Entry[Message]) -> tuple[str, dict[str, Any]]:
     Returns the stringified entry id and a JSON object.
     The JSON Schema of the output is provided as [entry.json](../../../../schemas/entry.json).
     """
-    id = ".".join(part.replace(".", r"\.") for part in entry.id)
+    id = ".".join(sub(r"\.|\\(?=[.\\]|$)", r"\\\g<0>", part) for part in entry.id)
     json: dict[str, Any] = {}
     if entry.meta:
         json["@"] = list([m.key, m.value] for m in entry.meta)
@@ -45,6 +46,7 @@ def entry_to_json(entry: Entry[Message]) -> tuple[str, dict[str, Any]]:
         not entry.properties
         or not isinstance(entry.value, PatternMessage)
         or entry.value.pattern
+        or entry.value.declarations
     ):
         json["="] = message_to_json(entry.value)
     if entry.properties:
-- 
2.43.0


From d2737f2991c499f6317bea401b516227bf922e60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:12:48 +0000
Subject: [PATCH 038/102] fix: reject non-mapping options of MF2 expressions
 without functions

---
 python/moz/l10n/formats/mf2/validate.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/validate.py b/python/moz/l10n/formats/mf2/validate.py
index dc701d7..eb58256 100644
--- a/python/moz/l10n/formats/mf2/validate.py
+++ b/python/moz/l10n/formats/mf2/validate.py
@@ -167,10 +167,11 @@ def _validate_expression(expr: Expression) -> None:
             )
         if expr.options:
             raise MF2ValidationError("Invalid expression with options but no function")
-    elif isinstance(expr.function, str) and identifier_re.fullmatch(expr.function):
-        _validate_options(expr.options)
-    else:
+    elif not isinstance(expr.function, str) or not identifier_re.fullmatch(
+        expr.function
+    ):
         raise MF2ValidationError(f"Invalid function name: {expr.function}")
+    _validate_options(expr.options)
     _validate_attributes(expr.attributes)
 
 
-- 
2.43.0


From 900fb01e625d58086cc174111dfecdf526d1b57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:38:44 +0000
Subject: [PATCH 039/102] fix: update section metadata when adding source
 entries, also where only new entries are added

---
 python/moz/l10n/resource/add_entries.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/resource/add_entries.py b/python/moz/l10n/resource/add_entries.py
index b083d33..1112ee8 100644
--- a/python/moz/l10n/resource/add_entries.py
+++ b/python/moz/l10n/resource/add_entries.py
@@ -84,6 +84,9 @@ def add_entries(
                             # An exactly matching section exists in target,
                             # so add this entry there.
                             ts.entries.append(entry)
+                            if use_source_entries and ts.meta != sm:
+                                ts.meta = sm
+                                change_count += 1
                             prev_pos = (ts, len(ts.entries) - 1)
                         else:
                             # A new section needs to be added for this entry.
-- 
2.43.0


From 6084a4a04a03003fb9a3b9ef9fe102f0f6ec1c12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:42 +0000
Subject: [PATCH 040/102] fix: ignore order in l10n_equal also for sections and
 entries sharing an id

---
 python/moz/l10n/resource/l10n_equal.py | 73 ++++++++++++++++++--------
 1 file changed, 50 insertions(+), 23 deletions(-)

diff --git a/python/moz/l10n/resource/l10n_equal.py b/python/moz/l10n/resource/l10n_equal.py
index 0a57878..3f040b2 100644
--- a/python/moz/l10n/resource/l10n_equal.py
+++ b/python/moz/l10n/resource/l10n_equal.py
@@ -32,33 +32,62 @@ def l10n_equal(a: Resource[Any], b: Resource[Any]) -> bool:
         a.format == b.format
         and a.comment.strip() == b.comment.strip()
         and l10n_meta(a) == l10n_meta(b)
-        and l10n_sections(a) == l10n_sections(b)
+        and l10n_sections_equal(a, b)
     )
 
 
-def l10n_sections(resource: Resource[Any]) -> list[tuple[Any, ...]]:
-    ls = [
-        (section.id, section.comment.strip(), l10n_meta(section), l10n_entries(section))
-        for section in resource.sections
-        if any(isinstance(entry, Entry) for entry in section.entries)
-    ]
-    ls.sort(key=lambda s: s[0])
-    nonempty_idx = next(
-        (idx for idx, (id, comment, meta, _) in enumerate(ls) if id or comment or meta),
-        len(ls),
-    )
-    if nonempty_idx > 1:
-        # Anonymous sections are considered equivalent
-        first = ls[0]
-        for sd in ls[1:nonempty_idx]:
-            first[3].extend(sd[3])
-        first[3].sort(key=lambda e: e[0])
-        del ls[1:nonempty_idx]
-    return ls
+def l10n_sections_equal(a: Resource[Any], b: Resource[Any]) -> bool:
+    a_anon, a_sections = l10n_sections(a)
+    b_anon, b_sections = l10n_sections(b)
+    if len(a_sections) != len(b_sections) or not l10n_entries_equal(a_anon, b_anon):
+        return False
+    # Section ids are not necessarily unique
+    rest = b_sections.copy()
+    for head, entries in a_sections:
+        for idx, (b_head, b_entries) in enumerate(rest):
+            if head == b_head and l10n_entries_equal(entries, b_entries):
+                del rest[idx]
+                break
+        else:
+            return False
+    return True
+
+
+def l10n_sections(
+    resource: Resource[Any],
+) -> tuple[list[tuple[Any, ...]], list[tuple[tuple[Any, ...], list[tuple[Any, ...]]]]]:
+    """
+    The entries of anonymous sections, which are considered equivalent,
+    and the other sections.
+    """
+    anon: list[tuple[Any, ...]] = []
+    sections = []
+    for section in resource.sections:
+        if entries := l10n_entries(section):
+            head = (section.id, section.comment.strip(), l10n_meta(section))
+            if any(head):
+                sections.append((head, entries))
+            else:
+                anon.extend(entries)
+    return anon, sections
+
+
+def l10n_entries_equal(a: list[tuple[Any, ...]], b: list[tuple[Any, ...]]) -> bool:
+    if len(a) != len(b):
+        return False
+    # Entry ids are not necessarily unique
+    rest: dict[Any, list[tuple[Any, ...]]] = defaultdict(list)
+    for entry in b:
+        rest[entry[0]].append(entry)
+    for entry in a:
+        if entry not in rest[entry[0]]:
+            return False
+        rest[entry[0]].remove(entry)
+    return True
 
 
 def l10n_entries(section: Section[Any]) -> list[tuple[Any, ...]]:
-    le = [
+    return [
         (
             entry.id,
             entry.comment.strip(),
@@ -69,8 +98,6 @@ def l10n_entries(section: Section[Any]) -> list[tuple[Any, ...]]:
         for entry in section.entries
         if isinstance(entry, Entry)
     ]
-    le.sort(key=lambda e: e[0])
-    return le
 
 
 def l10n_meta(
-- 
2.43.0


From ab45f43b6d2ad9264c70a5a3881ec702cb9467fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:44:44 +0000
Subject: [PATCH 041/102] fix: do not recurse over declarations when
 normalizing messages

---
 python/moz/l10n/util/normalize.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/python/moz/l10n/util/normalize.py b/python/moz/l10n/util/normalize.py
index 9d10932..342f129 100644
--- a/python/moz/l10n/util/normalize.py
+++ b/python/moz/l10n/util/normalize.py
@@ -14,7 +14,7 @@
 
 from __future__ import annotations
 
-from typing import TYPE_CHECKING, Iterable
+from typing import TYPE_CHECKING
 
 if TYPE_CHECKING:
     from moz.l10n.model import Message, Pattern
@@ -51,17 +51,11 @@ def _normalize_declarations(msg: Message, var_refs: set[str]) -> None:
         name: set(var.name for var in decl.variable_refs() if var.name != name)
         for name, decl in msg.declarations.items()
     }
-    for name in list(var_refs):
-        var_refs.update(_var_dependencies(decl_refs, name))
+    todo = list(var_refs)
+    while todo:
+        deps = decl_refs.get(todo.pop(), set()) - var_refs
+        var_refs.update(deps)
+        todo.extend(deps)
     for name in list(msg.declarations):
         if name not in var_refs:
             del msg.declarations[name]
-
-
-def _var_dependencies(decl_refs: dict[str, set[str]], name: str) -> Iterable[str]:
-    drs = decl_refs.get(name, None)
-    if drs:
-        del decl_refs[name]
-        for dr in drs:
-            yield dr
-            yield from _var_dependencies(decl_refs, dr)
-- 
2.43.0


From 165940ed4999d0491d501842b0579c4f07c689ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:12:40 +0000
Subject: [PATCH 042/102] fix: match configured paths literally, and look up
 all of the paths that a config maps

---
 python/moz/l10n/paths/config.py | 77 +++++++++++++++++++--------------
 1 file changed, 44 insertions(+), 33 deletions(-)

diff --git a/python/moz/l10n/paths/config.py b/python/moz/l10n/paths/config.py
index d639850..aa1829d 100644
--- a/python/moz/l10n/paths/config.py
+++ b/python/moz/l10n/paths/config.py
@@ -14,13 +14,14 @@
 
 from __future__ import annotations
 
+import posixpath
 import sys
 from collections import defaultdict
 from collections.abc import Callable, Iterator
 from glob import glob
 from os import sep
 from os.path import dirname, isfile, join, normpath, relpath
-from re import Pattern, compile
+from re import Pattern, compile, escape
 from typing import Any, cast
 
 from .android_locale import get_android_locale
@@ -31,7 +32,7 @@ else:
     from tomli import load
 
 path_stars = compile(r"[*](?:[*](?:[/\\][*]*)?)?")
-path_var = compile(r"{(\w+)}")
+path_part = compile(path_stars.pattern + r"|{(\w+)}")
 
 _DEFAULT_LOCALE_MAP: dict[str, Callable[[str], str]] = {
     "locale": lambda locale: locale,
@@ -56,14 +57,23 @@ def path_regex(path: str) -> Pattern[str]:
     """
     if path.startswith("{l10n_base}/"):
         path = path[12:]
-    path = path_stars.sub(
-        lambda m: (
-            "([^/]*)" if m[0] == "*" else "((?:.*/)?)" if m[0] == "**/" else "(.*)"
-        ),
-        path,
-    )
-    path = path_var.sub(r"(?P<\1>[^/]*)", path)
-    return compile(path)
+    path = posixpath.normpath(path)
+    regex = ""
+    pos = 0
+    vars: set[str] = set()
+    for m in path_part.finditer(path):
+        regex += escape(path[pos : m.start()])
+        pos = m.end()
+        if m[1] is None:
+            regex += (
+                "([^/]*)" if m[0] == "*" else "((?:.*/)?)" if m[0] == "**/" else "(.*)"
+            )
+        elif m[1] in vars:
+            regex += f"(?P={m[1]})"
+        else:
+            vars.add(m[1])
+            regex += f"(?P<{m[1]}>[^/]+)"
+    return compile(regex + escape(path[pos:]))
 
 
 class PartialMap(dict[str, str]):
@@ -140,23 +150,25 @@ class L10nConfigPaths:
 
         self._path_data: dict[str, dict[str, list[str] | None]] = defaultdict(dict)
         """ ref -> target -> locales """
-        fp = set(force_paths) if force_paths else None
         for path in toml.get("paths", []):
             assert isinstance(path, dict)
             ref: str = normpath(join(self._ref_root, path["reference"]))
             target: str = path["l10n"]  # Note: not normalised, so sep=="/"
             if env_map:
                 target = target.format_map(env_map)
-            self._templates.append((path_stars.sub("{}", ref), path_regex(target)))
+            self._templates.append(
+                (
+                    path_stars.sub("{}", ref),
+                    path_regex(target[:-1] if target.endswith(".pot") else target),
+                )
+            )
             locales: list[str] | None = path.get("locales", None)
             if "*" in ref:
                 if ref.count("*") != target.count("*"):
                     raise ValueError(
                         f"Wildcard mismatch between reference & l10n: {path}"
                     )
-                ref_re = compile(
-                    path_stars.sub("(.*)", ref.replace(sep, "/").replace(".", r"\."))
-                )
+                ref_re = path_regex(ref.replace(sep, "/"))
                 *tgt_parts, tgt_end = path_stars.split(target)
 
                 def get_target(ref_file: str) -> str:
@@ -166,18 +178,14 @@ class L10nConfigPaths:
                         "".join(a + b for a, b in zip(tgt_parts, m.groups())) + tgt_end
                     )
 
-                for ref_file in glob(ref, recursive=True):
+                # Of the special characters of glob(), only * is supported
+                ref_glob = ref.replace("[", "[[]").replace("?", "[?]")
+                for ref_file in glob(ref_glob, recursive=True):
                     if isfile(ref_file):
                         self._path_data[ref_file][get_target(ref_file)] = locales
-                if fp:
-                    ref_re = path_regex(ref.replace(sep, "/"))
-                    fp_match = {
-                        path for path in fp if ref_re.fullmatch(path.replace(sep, "/"))
-                    }
-                    if fp_match:
-                        for path in fp_match:
-                            self._path_data[path][get_target(path)] = locales
-                        fp -= fp_match
+                for fp in force_paths or ():
+                    if ref_re.fullmatch(fp.replace(sep, "/")):
+                        self._path_data[fp][get_target(fp)] = locales
             else:
                 self._path_data[ref][target] = locales
 
@@ -196,6 +204,7 @@ class L10nConfigPaths:
                         L10nConfigPaths(
                             incl_path,
                             cfg_load=cfg_load,
+                            force_paths=force_paths,
                             locale_map=locale_map,
                             _seen=_seen,
                         )
@@ -284,13 +293,15 @@ class L10nConfigPaths:
         """
         all: dict[tuple[str, str], list[str] | None] = {}
         for key, locales in self._all(format_map):
-            prev = all.get(key, None)
-            if prev is None:
+            if key not in all:
                 all[key] = locales
-            elif locales:
-                locales_ = list(set(prev).union(locales))
-                locales_.sort()
-                all[key] = locales_
+            else:
+                prev = all[key]
+                all[key] = (
+                    None  # all locales
+                    if prev is None or locales is None
+                    else sorted(set(prev).union(locales))
+                )
         return all
 
     def _all(
@@ -331,9 +342,9 @@ class L10nConfigPaths:
         if locale is not None and self._locales and locale not in self._locales:
             return None, set()
         norm_ref_path = normpath(join(self._ref_root, ref_path))
-        if norm_ref_path.endswith(".po"):
-            norm_ref_path += "t"
         pd = self._path_data.get(norm_ref_path, None)
+        if pd is None and norm_ref_path.endswith(".po"):
+            pd = self._path_data.get(norm_ref_path + "t", None)
         target = None
         locales = None
         if pd:
-- 
2.43.0


From d5da3d9f817552fa38ce41b797aa3a32d79d90ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:48 +0000
Subject: [PATCH 043/102] fix: honour ignore rules for parents of the dirs
 given to walk_files, and yield files of overlapping dirs once

---
 python/moz/l10n/util/walk_files.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/util/walk_files.py b/python/moz/l10n/util/walk_files.py
index 39d6fac..22a0271 100644
--- a/python/moz/l10n/util/walk_files.py
+++ b/python/moz/l10n/util/walk_files.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 
 from collections.abc import Iterator
 from os import sep, walk
-from os.path import isdir, join, relpath
+from os.path import isdir, join, normpath, relpath
 
 from gitignorant import Rule, check_match, parse_gitignore_file
 
@@ -43,8 +43,21 @@ def walk_files(
                 ignore += parse_gitignore_file(file)
         except OSError:
             pass
+    seen: set[str] = set()
     for dir in (join(root, p) for p in dirs) if dirs else (root,):
+        # A directory may be ignored on its own, or due to one of its parents
+        parts = [p for p in relpath(dir, start=root).split(sep) if p != "."]
+        if any(
+            check_match(ignore, "/".join(parts[: i + 1]), is_dir=True)
+            for i in range(len(parts))
+        ):
+            continue
         for dirpath, dirnames, filenames in walk(dir):
+            # The dirs may overlap
+            if normpath(dirpath) in seen:
+                dirnames.clear()
+                continue
+            seen.add(normpath(dirpath))
             idx = len(dirnames) - 1
             while idx >= 0:
                 rp = relpath(join(dirpath, dirnames[idx]), start=root)
-- 
2.43.0


From 98a451386da8a5798390b62cc0eb88b672bbeb89 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:22:37 +0000
Subject: [PATCH 044/102] fix: discover paths from the current directory, look
 up .po references, and do not repeat locales

---
 python/moz/l10n/paths/discover.py | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index d40692d..c5e6fb4 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -17,8 +17,18 @@ from __future__ import annotations
 import re
 from collections.abc import Iterable, Iterator
 from itertools import chain
-from os import sep, walk
-from os.path import commonpath, dirname, isdir, join, normpath, relpath, splitext
+from os import curdir, sep, walk
+from os.path import (
+    abspath,
+    commonpath,
+    dirname,
+    isabs,
+    isdir,
+    join,
+    normpath,
+    relpath,
+    splitext,
+)
 from typing import Literal
 
 from moz.l10n.formats import l10n_extensions
@@ -104,6 +114,11 @@ class L10nDiscoverPaths:
             raise ValueError(f"Not a directory: {root}")
         if ref_root:
             ref_root = normpath(join(root, ref_root))
+        if curdir in (root, ref_root) or (ref_root and isabs(root) != isabs(ref_root)):
+            # Paths walked from the current directory would not be normalized,
+            # and absolute paths can't be compared with relative ones.
+            root = abspath(root)
+            ref_root = abspath(ref_root) if ref_root else None
         if source_locale is None:
             source_locale = ["en-US", "en"]
         elif isinstance(source_locale, str):
@@ -197,8 +212,7 @@ class L10nDiscoverPaths:
             default=(None, None),
         )
         if locale_dirs_:
-            self.locales = [dir.replace("_", "-") for dir in locale_dirs_]
-            self.locales.sort()
+            self.locales = sorted({dir.replace("_", "-") for dir in locale_dirs_})
             self.locale_dir_sep = (
                 "_"
                 if sum("_" in dir for dir in locale_dirs_)
@@ -263,7 +277,7 @@ class L10nDiscoverPaths:
         If `locale` is not set, target path will include a `{locale}` variable.
         """
         ref_path = normpath(join(self._ref_root, ref_path))
-        if ref_path.endswith(".po"):
+        if ref_path.endswith(".po") and ref_path not in self.ref_paths:
             ref_path += "t"
         if ref_required and ref_path not in self.ref_paths:
             return None, ()
-- 
2.43.0


From e8cd9a1b3dd4e4c5607fc69b33a74ed3901f7593 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:52 +0000
Subject: [PATCH 045/102] fix: reject invalid b+ forms in
 parse_android_locale()

---
 python/moz/l10n/paths/android_locale.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/moz/l10n/paths/android_locale.py b/python/moz/l10n/paths/android_locale.py
index dcf8ebf..7eedbdc 100644
--- a/python/moz/l10n/paths/android_locale.py
+++ b/python/moz/l10n/paths/android_locale.py
@@ -49,6 +49,10 @@ def parse_android_locale(alocale: str) -> str | None:
     """
     if alocale.startswith("b+"):
         lc, *rest = alocale[2:].split("+")
+        if not fullmatch(r"[A-Za-z]{2,8}", lc) or not all(
+            fullmatch(r"[A-Za-z0-9]{1,8}", subtag) for subtag in rest
+        ):
+            return None  # Not a valid BCP-47 locale
     else:
         m = fullmatch(r"([a-z]{2,3})(?:-r([A-Z]{2}))?", alocale)
         if m is None:
-- 
2.43.0


From 353f58d15fe3983e4bfdc66267a2aff08853db70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:58 +0000
Subject: [PATCH 046/102] fix: insert migrated entries in the section of their
 id, by default at the end of the last one

---
 python/moz/l10n/migrate/utils.py | 41 ++++++++++++++++----------------
 1 file changed, 21 insertions(+), 20 deletions(-)

diff --git a/python/moz/l10n/migrate/utils.py b/python/moz/l10n/migrate/utils.py
index 6743bda..4b33353 100644
--- a/python/moz/l10n/migrate/utils.py
+++ b/python/moz/l10n/migrate/utils.py
@@ -18,6 +18,7 @@ from dataclasses import dataclass, field
 from logging import getLogger
 from typing import Any, TypeVar, Union
 
+from moz.l10n.formats import Format
 from moz.l10n.model import (
     CatchallKey,
     Entry,
@@ -158,37 +159,37 @@ def insert_entry_after(
     Insert `entry` in `res` after the last entry
     with an `.id` matching one of `src_ids`,
     or if none such are found,
-    at the end of the last section matching any of `ids`.
+    at the end of the last section that may contain it.
 
     Note that `entry.id` is expected to include its section id,
     which will be dropped before insertion.
+    Only sections with that id are considered.
+    For .ini resources, the section is added if it does not exist.
 
     If no suitable insertion position is found, raises StopIteration.
     """
     id_set = {id if isinstance(id, tuple) else (id,) for id in src_ids}
-    last_section: Section[M] | None = None
-    for section in reversed(res.sections):
-        if section.id:
-            sid_len = len(section.id)
-            eid_set = {id[sid_len:] for id in id_set if section.id == id[:sid_len]}
-            if not eid_set:
-                continue
-        else:
-            sid_len = 0
-            eid_set = id_set
+    sections = [
+        section
+        for section in res.sections
+        if len(section.id) < len(entry.id) and section.id == entry.id[: len(section.id)]
+    ]
+    if not sections:
+        if res.format != Format.ini or len(entry.id) != 2:
+            raise StopIteration
+        sections = [Section(entry.id[:1], [])]
+        res.sections += sections
+    sid_len = max(len(section.id) for section in sections)
+    sections = [section for section in sections if len(section.id) == sid_len]
+    section_id = entry.id[:sid_len]
+    entry.id = entry.id[sid_len:]
+    eid_set = {id[sid_len:] for id in id_set if section_id == id[:sid_len]}
+    for section in reversed(sections):
         for e_rev_idx, e in enumerate(reversed(section.entries)):
             if isinstance(e, Entry) and e.id in eid_set:
-                if sid_len:
-                    entry.id = entry.id[sid_len:]
                 section.entries.insert(len(section.entries) - e_rev_idx, entry)
                 return
-        last_section = section
-    if last_section is None:
-        raise StopIteration
-    else:
-        if last_section.id:
-            entry.id = entry.id[len(last_section.id) :]
-        last_section.entries.append(entry)
+    sections[-1].entries.append(entry)
 
 
 def plural_message(
-- 
2.43.0


From 682bb173dc405afd5d8f0b8241ff126190e85691 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:58 +0000
Subject: [PATCH 047/102] fix: do not overwrite unparseable files in
 migrations, read and write the same target path, and copy whole property
 messages

---
 python/moz/l10n/migrate/__init__.py | 39 +++++++++++++++++++++++------
 1 file changed, 31 insertions(+), 8 deletions(-)

diff --git a/python/moz/l10n/migrate/__init__.py b/python/moz/l10n/migrate/__init__.py
index 66bdcd5..50d43b4 100644
--- a/python/moz/l10n/migrate/__init__.py
+++ b/python/moz/l10n/migrate/__init__.py
@@ -17,7 +17,8 @@ from __future__ import annotations
 import dataclasses
 from copy import deepcopy
 from logging import getLogger
-from os.path import isdir, isfile, join
+from os import makedirs
+from os.path import abspath, dirname, exists, isdir, isfile, join
 from typing import Any, Callable, Union
 
 from moz.l10n.formats import Format, detect_format
@@ -121,15 +122,21 @@ class Migrate:
             raise ValueError("Paths not set")
         all_changes: dict[str, list[Entry[Message]]] = {}
         for ref_path, res_add_entries in self.map.items():
-            tgt_fmt, locales = self.paths.target(ref_path)
+            tgt_fmt, _ = self.paths.target(ref_path)
             if tgt_fmt is None:
                 raise ValueError(f"Invalid reference path: {ref_path}")
 
             src_res: Resource[Message] | None = None
-            for locale in locales:
+            for locale in sorted(self.paths.all_locales):
+                tgt_path, _ = self.paths.target(ref_path, locale=locale)
+                if tgt_path is None:
+                    continue
                 ctx = MigrationContext(self.paths, ref_path, locale, self.parse_options)
                 res = ctx.get_resource(ref_path)
                 if res is None:
+                    if exists(tgt_path):
+                        log.warning(f"Failed to parse {tgt_path}, skipping")
+                        continue
                     if src_res is None:
                         src_res = _get_empty_resource(
                             join(self.paths.ref_root, ref_path)
@@ -140,6 +147,7 @@ class Migrate:
                             )
                             continue
                     res = deepcopy(src_res)
+                    ctx._resources[ref_path] = res
 
                 changed: list[Entry[Message]] = []
                 for id, create in res_add_entries.items():
@@ -152,11 +160,13 @@ class Migrate:
                     nc = len(changed)
                     entries = "1 entry" if nc == 1 else f"{nc} entries"
                     log.info(f"Adding {entries} to {ref_path} for locale {locale}")
-                    tgt_path = self.paths.format_target_path(tgt_fmt, locale)
                     if not dry_run:
-                        with open(tgt_path, "w", encoding="utf-8") as file:
-                            for line in serialize_resource(res):
-                                file.write(line)
+                        # Serialize everything before opening the file for writing,
+                        # so that its previous contents are not lost on error.
+                        data = "".join(serialize_resource(res)).encode("utf-8")
+                        makedirs(dirname(abspath(tgt_path)), exist_ok=True)
+                        with open(tgt_path, "wb") as file:
+                            file.write(data)
                     all_changes[tgt_path] = changed
         return all_changes
 
@@ -213,6 +223,13 @@ def copy(
                 log.debug(f"Copy-from entry not found: {ctx.pretty_id(id)}")
                 return None
 
+        if variant is None:
+            entry = get_entry(res_, *id)
+            if entry and property in entry.properties:
+                msg = deepcopy(entry.properties[property])
+                _replace_placeholders(msg, replace)
+                return msg, {id}
+
         try:
             pattern = get_pattern(res_, *id, property=property, variant=variant)
             pattern = deepcopy(pattern)
@@ -405,6 +422,8 @@ def _create_entry(
 
     # For .ini and .xliff, new_entry.id will initially contain the section id.
     # This is dropped later in insert_entry_after().
+    if isinstance(src_entry, str):
+        src_entry = PatternMessage([src_entry])
     if isinstance(src_entry, Entry):
         new_entry = dataclasses.replace(src_entry, id=ctx.target_id)
     elif isinstance(src_entry, (PatternMessage, SelectMessage)):
@@ -412,5 +431,9 @@ def _create_entry(
     else:
         raise ValueError(f"Unsupported entry type {type(src_entry)}: {ctx}")
 
-    insert_entry_after(res, new_entry, *src_ids, *ctx._prev_ids)
+    try:
+        insert_entry_after(res, new_entry, *src_ids, *ctx._prev_ids)
+    except StopIteration:
+        log.warning(f"No section found for {ctx}")
+        return None
     return new_entry
-- 
2.43.0


From 485d90a15b4ccf865c0441573dcb4be92ef5a9df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:51:21 +0000
Subject: [PATCH 048/102] fix: keep metadata of XLIFF and other files that are
 built, and only open targets for writing once serialized

---
 python/moz/l10n/bin/build.py      | 24 +++++++++++++++++++-----
 python/moz/l10n/bin/build_file.py | 12 +++++-------
 2 files changed, 24 insertions(+), 12 deletions(-)

diff --git a/python/moz/l10n/bin/build.py b/python/moz/l10n/bin/build.py
index 8e76184..d71d97d 100644
--- a/python/moz/l10n/bin/build.py
+++ b/python/moz/l10n/bin/build.py
@@ -153,6 +153,14 @@ def cli(
         log.info(f"  src_fallback {src_fallback:>6}")
 
 
+def write_resource(path: str, resource: Resource[Message]) -> None:
+    # Serialize everything before opening the file for writing,
+    # so that its previous contents are not lost on error.
+    data = "".join(serialize_resource(resource, trim_comments=True)).encode("utf-8")
+    with open(path, "wb") as file:
+        file.write(data)
+
+
 def write_target_file(
     name: str,
     source_res: Resource[Message],
@@ -167,10 +175,17 @@ def write_target_file(
             for entry in section.entries
             if isinstance(entry, Entry)
         }
+        if not l10n_map:
+            # The JSON format of an empty object can't be detected
+            l10n_res.format = source_res.format
+        l10n_section_meta = {
+            section.id: section.meta for section in l10n_res.sections if section.id
+        }
         l10n_res.sections = []
     else:
-        l10n_res = Resource(source_res.format, [])
+        l10n_res = Resource(source_res.format, [], meta=list(source_res.meta))
         l10n_map = {}
+        l10n_section_meta = {}
     # Fluent uses per-message fallback at runtime, allowing resources to be incomplete.
     is_fluent = source_res.format == Format.fluent
     msg_delta = 0
@@ -221,13 +236,12 @@ def write_target_file(
             for entry_ in section.entries
             if (entry := get_entry(section.id, entry_)) is not None
         ]
-        l10n_res.sections.append(Section(section.id, tgt_entries))
+        tgt_meta = l10n_section_meta.get(section.id, section.meta)
+        l10n_res.sections.append(Section(section.id, tgt_entries, meta=list(tgt_meta)))
 
     msg = f"merge {name}"
     log.info(f"{msg} ({msg_delta:+d})" if msg_delta != 0 else msg)
-    with open(tgt_path, "w", encoding="utf-8") as file:
-        for line in serialize_resource(l10n_res, trim_comments=True):
-            file.write(line)
+    write_resource(tgt_path, l10n_res)
     return msg_delta, total_count, missing_ids
 
 
diff --git a/python/moz/l10n/bin/build_file.py b/python/moz/l10n/bin/build_file.py
index 48601f9..14876aa 100644
--- a/python/moz/l10n/bin/build_file.py
+++ b/python/moz/l10n/bin/build_file.py
@@ -16,15 +16,15 @@ from __future__ import annotations
 
 import json
 from os import makedirs
-from os.path import dirname, exists, join, relpath
+from os.path import abspath, dirname, exists, join, relpath
 from shutil import copyfile
 
 import click
-from moz.l10n.bin.build import write_target_file
+from moz.l10n.bin.build import write_resource, write_target_file
 from moz.l10n.bin.utils import set_log_level
 from moz.l10n.formats import UnsupportedFormat
 from moz.l10n.model import Entry
-from moz.l10n.resource import parse_resource, serialize_resource
+from moz.l10n.resource import parse_resource
 
 
 @click.command()
@@ -64,16 +64,14 @@ def cli(
             source_res = parse_resource(source)
         except UnsupportedFormat:
             source_res = None
-        makedirs(dirname(target), exist_ok=True)
+        makedirs(dirname(abspath(target)), exist_ok=True)
         total_count = 0
         missing_ids: list[str | list[str]] = []
         if source_res is None:
             from_path = l10n if l10n is not None and exists(l10n) else source
             copyfile(from_path, target)
         elif l10n is None:
-            with open(target, "w", encoding="utf-8") as file:
-                for line in serialize_resource(source_res, trim_comments=True):
-                    file.write(line)
+            write_resource(target, source_res)
             total_count = sum(
                 isinstance(entry, Entry)
                 for section in source_res.sections
-- 
2.43.0


From 9ac6687ea685199e9b87ac8eab3c5d617ed99c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:57:14 +0000
Subject: [PATCH 049/102] fix: treat Fluent messages that lack the value of the
 reference message as missing in builds

---
 python/moz/l10n/bin/build.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/bin/build.py b/python/moz/l10n/bin/build.py
index d71d97d..ddf337a 100644
--- a/python/moz/l10n/bin/build.py
+++ b/python/moz/l10n/bin/build.py
@@ -207,13 +207,16 @@ def write_target_file(
         if id in l10n_map:
             l10n_entry = l10n_map[id]
             if is_fluent and not l10n_entry.id[0].startswith("-"):
-                # If source_res includes Fluent message attributes not in l10n_res, exclude the entry.
+                # If source_res includes a Fluent message value or attributes not in l10n_res, exclude the entry.
                 # If l10n_res includes additional message attributes,
                 # include the entry but leave out the attributes not in source_res.
                 sk = source_entry.properties.keys()
                 lk = l10n_entry.properties.keys()
-                if sk != lk:
-                    if set(sk).issubset(lk):
+                no_value = (
+                    l10n_entry.value.is_empty() and not source_entry.value.is_empty()
+                )
+                if sk != lk or no_value:
+                    if set(sk).issubset(lk) and not no_value:
                         for name in set(lk).difference(sk):
                             del l10n_entry.properties[name]
                         return l10n_entry
-- 
2.43.0


From 1ee517b77daf243531d7d6fb8aa11e0672756c09 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 050/102] fix: compare each locale with its own target paths,
 and relative source directories

---
 python/moz/l10n/bin/compare.py | 37 ++++++++++++++++++++++++----------
 1 file changed, 26 insertions(+), 11 deletions(-)

diff --git a/python/moz/l10n/bin/compare.py b/python/moz/l10n/bin/compare.py
index 32fa19c..7d74e76 100644
--- a/python/moz/l10n/bin/compare.py
+++ b/python/moz/l10n/bin/compare.py
@@ -16,7 +16,7 @@ from __future__ import annotations
 
 import json
 from collections import defaultdict
-from os.path import abspath, basename, dirname, isdir, join, normpath, relpath
+from os.path import abspath, basename, dirname, isdir, join, normpath, relpath, split
 from typing import Collection
 
 import click
@@ -107,31 +107,28 @@ def cli(
         excluded = ext_exclude and any(path.endswith(ext) for ext in ext_exclude)
         return included and not excluded
 
+    source_paths: L10nConfigPaths | L10nDiscoverPaths | None = None
+    ref_ids: dict[str, Collection[str]] = {}
     if source.endswith(".json"):
         with open(source) as f:
             source_data: dict[str, Collection[str]] = json.load(f)
         if ext_include or ext_exclude:
             source_data = {k: set(v) for k, v in source_data.items() if ext_filter(k)}
     else:
-        source_paths: L10nConfigPaths | L10nDiscoverPaths = (
+        source_paths = (
             L10nConfigPaths(source)
             if source.endswith(".toml")
-            else L10nDiscoverPaths(source, source)
+            else L10nDiscoverPaths(source, ref_root=".")
         )
-        path0 = abspath(paths[0])
-        locale0 = basename(path0)
-        source_paths.base = dirname(path0)
-        source_data = {}
+        source_paths.base = dirname(abspath(paths[0]))
         for ref_path, tgt_path in source_paths.all():
             if not ext_filter(tgt_path):
                 continue
             try:
-                path = relpath(
-                    source_paths.format_target_path(tgt_path, locale0), path0
-                )
-                source_data[path] = msg_ids(ref_path)
+                ref_ids[ref_path] = msg_ids(ref_path)
             except UnsupportedFormat:
                 continue
+        source_data = locale_data(source_paths, ref_ids, paths[0])
 
     source_total = sum(len(sd) for sd in source_data.values())
     if source_total == 0:
@@ -145,6 +142,9 @@ def cli(
         if not isdir(path):
             continue
         lc = basename(normpath(path))
+        if source_paths:
+            # The paths of target files may depend on their locale.
+            source_data = locale_data(source_paths, ref_ids, path)
         errors, missing = compare(source_data, path)
         if json_output:
             json_res[lc] = {
@@ -170,6 +170,21 @@ def cli(
         click.echo(json.dumps(json_res, ensure_ascii=False))
 
 
+def locale_data(
+    source_paths: L10nConfigPaths | L10nDiscoverPaths,
+    ref_ids: dict[str, Collection[str]],
+    root: str,
+) -> dict[str, Collection[str]]:
+    """Expected messages by the paths of their files within the locale `root`."""
+    root = abspath(root)
+    source_paths.base, locale = split(root)
+    return {
+        relpath(source_paths.format_target_path(tgt_path, locale), root): ids
+        for ref_path, tgt_path in source_paths.all()
+        if (ids := ref_ids.get(ref_path)) is not None
+    }
+
+
 def compare(
     source_data: dict[str, Collection[str]], root: str
 ) -> tuple[dict[str, str], dict[str, list[str]]]:
-- 
2.43.0


From c137b2632ece4d957786c50b75df8689d318851b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:40 +0000
Subject: [PATCH 051/102] fix: leave out directories matched by ** patterns
 when fixing and linting

---
 python/moz/l10n/bin/utils.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/bin/utils.py b/python/moz/l10n/bin/utils.py
index a5df375..4853d96 100644
--- a/python/moz/l10n/bin/utils.py
+++ b/python/moz/l10n/bin/utils.py
@@ -76,7 +76,13 @@ def handle_paths(
 
     elif file_paths:
         root_dir = os.getcwd()
-        path_iter = (path for fp in file_paths for path in glob(fp, recursive=True))
+        path_iter = (
+            path
+            for fp in file_paths
+            for path in glob(fp, recursive=True)
+            # A ** pattern also matches directories
+            if path == fp or not os.path.isdir(path)
+        )
 
     else:
         log.error(LOG_ERROR_CONFIG_OR_PATHS)
-- 
2.43.0


From c49b1fb18c1931958436e873c461c7fbfdea5883 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 052/102] fix: do not move a DTD comment that follows a
 parameter entity to be the resource comment

---
 python/moz/l10n/formats/dtd/parse.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/dtd/parse.py b/python/moz/l10n/formats/dtd/parse.py
index c7a109b..6e02bea 100644
--- a/python/moz/l10n/formats/dtd/parse.py
+++ b/python/moz/l10n/formats/dtd/parse.py
@@ -85,14 +85,14 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
         has_prev_entries = False
         for entry in dtd_iter(source, pos, endpos=cstart):
             if isinstance(entry, str):
-                handle_other_content(entry)
                 lines = entry.split("\n")
                 if comment and len(lines) > 2:
-                    if entries or resource.comment:
+                    if entries or resource.comment or resource.meta:
                         entries.append(Comment(comment))
                     else:
                         resource.comment = comment
                     comment = ""
+                handle_other_content(entry)
                 at_newline = len(lines) > 1
             else:
                 if comment:
@@ -115,13 +115,13 @@ def dtd_parse(source: str | bytes) -> Resource[Message]:
     if len(source) > pos:
         for entry in dtd_iter(source, pos):
             if isinstance(entry, str):
-                handle_other_content(entry)
                 if comment and entry.count("\n") > 1:
-                    if entries or resource.comment:
+                    if entries or resource.comment or resource.meta:
                         entries.append(Comment(comment))
                     else:
                         resource.comment = comment
                     comment = ""
+                handle_other_content(entry)
             else:
                 if comment:
                     entry.comment = comment
-- 
2.43.0


From b40c6f7932ff6e82d3444103100971a1858e678d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 053/102] fix: serialize all INI section names and keys that
 can be parsed

---
 python/moz/l10n/formats/ini/serialize.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/ini/serialize.py b/python/moz/l10n/formats/ini/serialize.py
index d4935bd..380405f 100644
--- a/python/moz/l10n/formats/ini/serialize.py
+++ b/python/moz/l10n/formats/ini/serialize.py
@@ -66,7 +66,10 @@ def ini_serialize(
         if not section.id:
             raise ValueError("Anonymous sections are not supported")
         yield from comment(section.comment, section.meta, False)
-        yield f"[{id_str(section.id)}]\n"
+        name = ".".join(section.id)
+        if search(r"^$|[\n\]]", name):
+            raise ValueError(f"Unsupported character in identifier: {section.id}")
+        yield f"[{name}]\n"
         at_empty_line = False
         for entry in section.entries:
             if isinstance(entry, Entry):
@@ -95,6 +98,6 @@ def ini_serialize(
 
 def id_str(id: tuple[str, ...]) -> str:
     name = ".".join(id)
-    if search(r"^\s|[\n:=[\]]|\s$", name):
+    if search(r"^$|^[\s[]|[\n:=]|\s$", name):
         raise ValueError(f"Unsupported character in identifier: {id}")
     return name
-- 
2.43.0


From 21d8928c01e4934b2b602b24389c7a7561d72e9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 054/102] fix: do not let an initial Fluent comment be read as
 the resource info

---
 python/moz/l10n/formats/fluent/serialize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 0f62a14..9f18a22 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -144,6 +144,9 @@ def fluent_astify(
         for entry in section.entries:
             if isinstance(entry, Comment):
                 if not trim_comments:
+                    if not body:
+                        # An initial comment would be parsed as resource `info`.
+                        body.append(ftl.GroupComment(""))
                     body.append(ftl.Comment(entry.comment))
             else:
                 body.append(
-- 
2.43.0


From 91767774a41a937f9e2f7b70d45b9fbb7a13e3f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:36:01 +0000
Subject: [PATCH 055/102] fix: serialize Android string-arrays that share a
 name

---
 python/moz/l10n/formats/android/serialize.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 7afc4e3..c08aefb 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -125,7 +125,11 @@ def android_serialize(
                         set_pattern_message(el, entry.value, allow_cdata=True)
                 else:
                     # <string-array>
-                    if string_array is None or name != string_array.get("name"):
+                    if (
+                        string_array is None
+                        or name != string_array.get("name")
+                        or entry.id[1] == "0"  # e.g. for another product
+                    ):
                         string_array = etree.SubElement(
                             root, "string-array", attrib=get_attrib(name, entry.meta)
                         )
-- 
2.43.0


From a311bd101294743f64859cc4da038b0aad71e029 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 056/102] fix: allow a byte order mark at the start of JSON
 strings, as in bytes

---
 python/moz/l10n/formats/plain_json/parse.py | 2 ++
 python/moz/l10n/util/loads.py               | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/python/moz/l10n/formats/plain_json/parse.py b/python/moz/l10n/formats/plain_json/parse.py
index 0f7ce56..a5005e7 100644
--- a/python/moz/l10n/formats/plain_json/parse.py
+++ b/python/moz/l10n/formats/plain_json/parse.py
@@ -30,6 +30,8 @@ def plain_json_parse(source: str | bytes) -> Resource[Message]:
 
     The parsed resource will not include any metadata.
     """
+    if isinstance(source, str) and source.startswith("\ufeff"):
+        source = source[1:]
     json: dict[str, dict[str, Any]] = loads(source)
     if not isinstance(json, dict):
         raise ValueError(f"Unexpected root value: {json}")
diff --git a/python/moz/l10n/util/loads.py b/python/moz/l10n/util/loads.py
index 11fbbb1..56e04a1 100644
--- a/python/moz/l10n/util/loads.py
+++ b/python/moz/l10n/util/loads.py
@@ -28,6 +28,8 @@ def json_linecomment_loads(source: str | bytes) -> tuple[Any, bool]:
 
     Line comments // are supported in `webext` messages.json files.
     """
+    if isinstance(source, str) and source.startswith("\ufeff"):
+        source = source[1:]
     try:
         return loads(source), True
     except JSONDecodeError:
-- 
2.43.0


From 07fd50d0820312846a24bd77b35e33cc3188ac58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 057/102] fix: ignore the encoding of XML declarations when
 parsing strings

---
 python/moz/l10n/formats/android/parse.py | 11 +++++++----
 python/moz/l10n/formats/xliff/parse.py   |  6 +++++-
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index c7e8e3d..823d8fb 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -101,10 +101,13 @@ def android_parse(
     Spans including elements will be wrapped with open/close markup
     with a similar attribute.
     """
-    parser = etree.XMLParser(resolve_entities=False)
-    root = etree.fromstring(
-        source.encode() if isinstance(source, str) else source, parser
-    )
+    if isinstance(source, str):
+        # The encoding set in an XML declaration does not apply
+        parser = etree.XMLParser(encoding="utf-8", resolve_entities=False)
+        source = source.encode()
+    else:
+        parser = etree.XMLParser(resolve_entities=False)
+    root = etree.fromstring(source, parser)
     if root.tag != "resources":
         raise ValueError(f"Unsupported root node: {root}")
     if root.text and not root.text.isspace():
diff --git a/python/moz/l10n/formats/xliff/parse.py b/python/moz/l10n/formats/xliff/parse.py
index 94daf55..82186d6 100644
--- a/python/moz/l10n/formats/xliff/parse.py
+++ b/python/moz/l10n/formats/xliff/parse.py
@@ -67,7 +67,11 @@ def xliff_parse(
     NOTE: At most one substitution is supported,
     and combinations of selectors (such as device + plural) are not supported.
     """
-    root = etree.fromstring(source.encode() if isinstance(source, str) else source)
+    if isinstance(source, str):
+        # The encoding set in an XML declaration does not apply
+        root = etree.fromstring(source.encode(), etree.XMLParser(encoding="utf-8"))
+    else:
+        root = etree.fromstring(source)
     version = root.attrib.get("version", None)
     if version not in ("1.0", "1.1", "1.2"):
         raise ValueError(f"Unsupported <xliff> version: {version}")
-- 
2.43.0


From 20a41652200978ed864b6a27735129504c5e40ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:01:13 +0000
Subject: [PATCH 058/102] fix: detect as webext only JSON with string values in
 messages, and do not fail on other encodings

---
 python/moz/l10n/formats/__init__.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/__init__.py b/python/moz/l10n/formats/__init__.py
index f122e48..e3d317c 100644
--- a/python/moz/l10n/formats/__init__.py
+++ b/python/moz/l10n/formats/__init__.py
@@ -16,7 +16,6 @@ from __future__ import annotations
 
 from enum import Enum
 from io import BytesIO
-from json import JSONDecodeError
 from os.path import splitext
 from typing import Any
 
@@ -115,7 +114,8 @@ def detect_format(name: str | None, source: bytes | str | None = None) -> Format
     if ext != ".xml":
         try:
             json, valid_json = json_linecomment_loads(source)
-        except JSONDecodeError:
+        except (ValueError, RecursionError):
+            # Includes errors due to other encodings and very long numbers
             json, valid_json = None, False
         if is_object_of_strings(json):
             assert isinstance(json, dict)
@@ -130,8 +130,11 @@ def detect_format(name: str | None, source: bytes | str | None = None) -> Format
     try:
         from lxml.etree import LxmlError, iterparse
 
-        bs = source.encode() if isinstance(source, str) else source
-        _, xml_root = next(iterparse(BytesIO(bs), events=("start",)))
+        # An encoding set in an XML declaration does not apply to a string
+        bs, enc = (
+            (source.encode(), "utf-8") if isinstance(source, str) else (source, None)
+        )
+        _, xml_root = next(iterparse(BytesIO(bs), events=("start",), encoding=enc))
         ns = xml_root.nsmap.get(None, None)
         if ns:
             return Format.xliff if ns in xliff_ns else None
@@ -163,11 +166,17 @@ def is_webext_message(obj: Any) -> bool:
     has_message = False
     for key, value in obj.items():
         if key == "message":
+            if not isinstance(value, str):
+                return False
             has_message = True
         elif key == "description":
-            pass
+            if not isinstance(value, str):
+                return False
         elif key == "placeholders":
-            if not isinstance(value, dict):
+            if not isinstance(value, dict) or not all(
+                isinstance(ph, dict) and all(isinstance(v, str) for v in ph.values())
+                for ph in value.values()
+            ):
                 return False
         else:
             return False
-- 
2.43.0


From 18286dad03057c3996a39b5a72094334ef378d52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:24 +0000
Subject: [PATCH 059/102] fix: keep the namespace prefixes of markup in single
 Android messages

---
 python/moz/l10n/formats/android/serialize.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index c08aefb..78ffde2 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -387,19 +387,25 @@ def set_pattern(
         elif any(isinstance(value, VariableRef) for value in part.options.values()):
             raise ValueError(f"Unsupported markup with variable option: {part}")
         else:
+            nsmap = None
             if part.attributes.get("translate", None) == "no":
-                name = f"{{{xliff_ns}}}g"
+                name = xliff_g
+                if not el.nsmap.get("xliff", None):
+                    nsmap = {"xliff": xliff_ns}
             elif ":" in part.name:
                 ns, local = part.name.split(":", 1)
-                xmlns = el.nsmap.get(ns, xliff_ns if ns == "xliff" else ns)
+                xmlns = el.nsmap.get(ns, None)
+                if xmlns is None:
+                    xmlns = xliff_ns if ns == "xliff" else ns
+                    nsmap = {ns: xmlns}
                 name = f"{{{xmlns}}}{local}"
             else:
                 name = part.name
             attrib = cast(dict[str, str], part.options)
             if part.kind == "standalone":
-                node = etree.SubElement(parent, name, attrib=attrib)
+                node = etree.SubElement(parent, name, attrib=attrib, nsmap=nsmap)
             elif part.kind == "open":
-                parent = etree.SubElement(parent, name, attrib=attrib)
+                parent = etree.SubElement(parent, name, attrib=attrib, nsmap=nsmap)
                 node = None
             elif parent != el and name == parent.tag:  # kind == 'close'
                 node = parent
-- 
2.43.0


From 0fe640cf6b1d9b7f5ce39e553a81fb183370a603 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:37 +0000
Subject: [PATCH 060/102] fix: report correct line positions for Fluent entries

---
 python/moz/l10n/formats/fluent/parse.py | 21 +++++++++------------
 1 file changed, 9 insertions(+), 12 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index f9928aa..02e1950 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -14,6 +14,7 @@
 
 from __future__ import annotations
 
+from bisect import bisect_left
 from re import finditer
 from typing import cast
 
@@ -198,7 +199,7 @@ def fluent_entry(
             else ftl_entry.span
         )
         k_span = ftl_entry.id.span or ftl_entry.span
-        v_span = (ftl_entry.value.span if ftl_entry.value else None) or ftl_entry.span
+        v_span = (ftl_entry.value.span if ftl_entry.value else None) or k_span
         entry.linepos = lpm.get_linepos(
             c_span.start, k_span.start, v_span.start, v_span.end
         )
@@ -211,7 +212,7 @@ def fluent_entry(
             entry.properties[attr.id.name] = prop_msg
         if lpm and entry.linepos and attr.span:
             span = attr.value.span or attr.span
-            entry.linepos.end = span.end
+            entry.linepos.end = lpm.get_end(span.end)
 
     return entry
 
@@ -531,21 +532,17 @@ def literal_value(arg: ftl.NumberLiteral | ftl.StringLiteral) -> str:
 
 class LinePosMapper:
     def __init__(self, src: str) -> None:
-        self._len = len(src)
         self._newlines = [m.start() for m in finditer("\n", src)]
 
     def _get_line(self, char_idx: int) -> int:
-        # Treat the end of the string as a newline.
-        if not self._newlines and char_idx >= self._len:
-            return 2
-        return next(
-            (idx + 1 for idx, nl in enumerate(self._newlines) if nl > char_idx),
-            len(self._newlines) + 1,
-        )
+        return bisect_left(self._newlines, char_idx) + 1
+
+    def get_end(self, end: int) -> int:
+        """The line one past that of the last character before `end`"""
+        return self._get_line(max(end - 1, 0)) + 1
 
     def get_linepos(self, start: int, key: int, value: int, end: int) -> LinePos:
         start_line = self._get_line(start)
         key_line = start_line if key == start else self._get_line(key)
         value_line = key_line if value == key else self._get_line(value)
-        end_line = self._get_line(end)
-        return LinePos(start_line, key_line, value_line, end_line)
+        return LinePos(start_line, key_line, value_line, self.get_end(end))
-- 
2.43.0


From c62b1800c8ae3d6634978006da7b964ba2cd340c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:39 +0000
Subject: [PATCH 061/102] fix: join .properties keys that continue on following
 lines

---
 python/moz/l10n/formats/properties/parse.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index 095997b..1a0285c 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -35,6 +35,9 @@ esc_re = compile(
 )
 
 
+continuation_re = compile(r"\\(?:\r\n?|\n)[\t\f ]*")
+
+
 def esc_parse(match: Match[str]) -> str:
     esc = match.group(1)
     if len(esc) > 1 and esc[0] == "u":
@@ -242,21 +245,32 @@ class PropertiesParser:
         # key
         start = self.pos
         at_escape = False
+        continuation = ""
         idx = -1
         for idx, ch in enumerate(self.source[start:]):
             if at_escape:
                 at_escape = False
+                if ch == "\n" or ch == "\r":
+                    self.line_pos += 1
+                    continuation = " \t\f\n" if ch == "\r" else " \t\f"
+            elif ch in continuation:
+                # The initial whitespace of a line that continues a key
+                continuation = " \t\f"
             elif ch == "\\":
                 at_escape = True
+                continuation = ""
             elif ch in {"\n", "\r", "\t", "\f", " ", "=", ":"}:
                 idx -= 1
                 break
+            else:
+                continuation = ""
         end = self.pos = start + idx + 1
         self.ws()
         if self.source.startswith(("=", ":"), self.pos):
             self.pos += 1
         self.at_value = True
-        return LineKind.KEY, lp, esc_re.sub(esc_parse, self.source[start:end])
+        key = continuation_re.sub("", self.source[start:end])
+        return LineKind.KEY, lp, esc_re.sub(esc_parse, key)
 
     def nl(self) -> bool:
         if self.source.startswith("\n", self.pos):
-- 
2.43.0


From 4fe356b5ba8d3d29e1cd21977c2392c200e89f87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:14:40 +0000
Subject: [PATCH 062/102] fix: report correct line positions for .properties
 entries

---
 python/moz/l10n/formats/properties/parse.py | 33 +++++++++++++--------
 1 file changed, 20 insertions(+), 13 deletions(-)

diff --git a/python/moz/l10n/formats/properties/parse.py b/python/moz/l10n/formats/properties/parse.py
index 1a0285c..d3d92df 100644
--- a/python/moz/l10n/formats/properties/parse.py
+++ b/python/moz/l10n/formats/properties/parse.py
@@ -90,7 +90,6 @@ def properties_parse(
     start_line = 0
     comment = ""
     comment_linepos: LinePos | None = None
-    prev_linepos: LinePos | None = None
     entry: Entry[Message] | None = None
     for kind, line, value in parser:
         if kind == LineKind.VALUE:
@@ -100,14 +99,14 @@ def properties_parse(
             else:
                 assert isinstance(entry.value, PatternMessage)
                 entry.value.pattern.append(value)
-            if entry.linepos and line > entry.linepos.key:
+            if entry.linepos:
                 entry.linepos.value = line
-                entry.linepos.end = line + 1
+                entry.linepos.end = parser.next_line
             entry = None
         else:
-            if prev_linepos:
-                prev_linepos.end = max(prev_linepos.end, line)
-                prev_linepos = None
+            if kind == LineKind.EMPTY and entry and entry.linepos:
+                # The entry has an empty value
+                entry.linepos.end = parser.next_line
             entry = None
             if kind == LineKind.KEY:
                 entry = Entry(
@@ -116,7 +115,6 @@ def properties_parse(
                     comment=comment,
                     linepos=LinePos(start_line or line, line, line, line + 1),
                 )
-                prev_linepos = entry.linepos
                 entries.append(entry)
                 comment = ""
                 comment_linepos = None
@@ -130,13 +128,16 @@ def properties_parse(
                     comment = value
                     start_line = line
                     comment_linepos = LinePos(line, line, line, line + 1)
-            elif comment:
+            else:
                 # empty line or EOF after a comment
-                if entries or resource.comment:
-                    entries.append(Comment(comment=comment, linepos=comment_linepos))
-                else:
-                    resource.comment = comment
-                comment = ""
+                if comment:
+                    if entries or resource.comment:
+                        entries.append(
+                            Comment(comment=comment, linepos=comment_linepos)
+                        )
+                    else:
+                        resource.comment = comment
+                    comment = ""
                 comment_linepos = None
                 start_line = 0
     return resource
@@ -272,6 +273,12 @@ class PropertiesParser:
         key = continuation_re.sub("", self.source[start:end])
         return LineKind.KEY, lp, esc_re.sub(esc_parse, key)
 
+    @property
+    def next_line(self) -> int:
+        """The first line that starts after the current position"""
+        at_start = self.source.endswith(("\n", "\r"), 0, self.pos)
+        return self.line_pos if at_start else self.line_pos + 1
+
     def nl(self) -> bool:
         if self.source.startswith("\n", self.pos):
             self.pos += 1
-- 
2.43.0


From 3fd804dfa9fd1c90de7ba6791c04a986baf0c42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:40 +0000
Subject: [PATCH 063/102] fix: do not share attributes between messages and
 their JSON representation

---
 python/moz/l10n/message/from_json.py | 4 ++--
 python/moz/l10n/message/to_json.py   | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/python/moz/l10n/message/from_json.py b/python/moz/l10n/message/from_json.py
index e9776db..aa89c6a 100644
--- a/python/moz/l10n/message/from_json.py
+++ b/python/moz/l10n/message/from_json.py
@@ -109,7 +109,7 @@ def _expression(json: dict[str, Any]) -> Expression:
         arg = None
     function = json.get("fn", None)
     options = _options(json["opt"]) if function is not None and "opt" in json else {}
-    return Expression(arg, function, options, json.get("attr", {}))
+    return Expression(arg, function, options, dict(json.get("attr", {})))
 
 
 def _markup(json: dict[str, Any]) -> Markup:
@@ -127,7 +127,7 @@ def _markup(json: dict[str, Any]) -> Markup:
         kind,
         name,
         _options(json.get("opt", {})),
-        json.get("attr", {}),
+        dict(json.get("attr", {})),
     )
 
 
diff --git a/python/moz/l10n/message/to_json.py b/python/moz/l10n/message/to_json.py
index 564af9a..33625f9 100644
--- a/python/moz/l10n/message/to_json.py
+++ b/python/moz/l10n/message/to_json.py
@@ -112,7 +112,7 @@ def _expression(expr: Expression) -> dict[str, Any]:
         if expr.options:
             json["opt"] = _options(expr.options)
     if expr.attributes:
-        json["attr"] = expr.attributes
+        json["attr"] = dict(expr.attributes)
     return json
 
 
@@ -123,7 +123,7 @@ def _markup(markup: Markup) -> dict[str, Any]:
     if markup.options:
         json["opt"] = _options(markup.options)
     if markup.attributes:
-        json["attr"] = markup.attributes
+        json["attr"] = dict(markup.attributes)
     return json
 
 
-- 
2.43.0


From a3409a9de59cf1de2020c74a63830f33d4c12e11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 064/102] fix: do not share metadata between the items of an
 Android string-array

---
 python/moz/l10n/formats/android/parse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index 823d8fb..e76c208 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -177,8 +177,9 @@ def android_parse(
                             list(parse_pattern(item, ascii_spaces, literal_quotes))
                         )
                         ic = comment_str(comment)
+                        im = [Metadata(m.key, m.value) for m in meta]
                         entries.append(
-                            Entry((name, str(idx)), value, comment=ic, meta=meta[:])
+                            Entry((name, str(idx)), value, comment=ic, meta=im)
                         )
                         comment.clear()
                         idx += 1
-- 
2.43.0


From 6266e49c1537e41aa868bf3c03efb69bc39883bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:37 +0000
Subject: [PATCH 065/102] fix: refuse sections with identifiers when
 serializing Fluent

---
 python/moz/l10n/formats/fluent/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/fluent/serialize.py b/python/moz/l10n/formats/fluent/serialize.py
index 9f18a22..f95bb2c 100644
--- a/python/moz/l10n/formats/fluent/serialize.py
+++ b/python/moz/l10n/formats/fluent/serialize.py
@@ -138,6 +138,8 @@ def fluent_astify(
     if res_comment:
         body.append(ftl.ResourceComment(res_comment))
     for idx, section in enumerate(resource.sections):
+        if section.id:
+            raise ValueError(f"Section identifiers not supported: {section.id}")
         section_comment = comment_str(section)
         if (not trim_comments and idx != 0) or section_comment:
             body.append(ftl.GroupComment(section_comment))
-- 
2.43.0


From f5eec479846c6cb82e21d2966871571eb9c6b5b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:48 +0000
Subject: [PATCH 066/102] fix: set the version of XLIFF serialized from other
 resources

---
 python/moz/l10n/formats/xliff/serialize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index 56c1492..e413d3c 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -83,6 +83,10 @@ def xliff_serialize(
             root_attrib.append(m)
         else:
             raise ValueError(f"Unsupported root metadata key: {k}")
+    if not any(m.key == "@version" for m in root_attrib):
+        # The resource is not from an XLIFF file
+        root_attrib.append(Metadata("@version", "1.2"))
+        root_nsmap.setdefault(None, "urn:oasis:names:tc:xliff:document:1.2")
     root = etree.Element(
         "xliff",
         attrib={clark_name(root_nsmap, m.key[1:]): m.value for m in root_attrib},
-- 
2.43.0


From b1f46c27ef6ffcc49be302010087e50c6c1b0921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:04 +0000
Subject: [PATCH 067/102] fix: raise ValueError for JSON identifiers that are
 prefixes of others

---
 python/moz/l10n/formats/plain_json/serialize.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/python/moz/l10n/formats/plain_json/serialize.py b/python/moz/l10n/formats/plain_json/serialize.py
index 542f50b..421eade 100644
--- a/python/moz/l10n/formats/plain_json/serialize.py
+++ b/python/moz/l10n/formats/plain_json/serialize.py
@@ -45,13 +45,18 @@ def plain_json_serialize(
     def ddict() -> dict[str, Any]:
         return defaultdict(ddict)
 
+    def find(parent: dict[str, Any], id: tuple[str, ...]) -> dict[str, Any]:
+        for part in id:
+            parent = parent[part]
+            if not isinstance(parent, dict):
+                raise ValueError(f"Prefix is also an identifier: {id}")
+        return parent
+
     check(resource.comment, resource.meta)
     root = ddict()
     for section in resource.sections:
         check(section.comment, section.meta)
-        section_parent = root
-        for part in section.id:
-            section_parent = section_parent[part]
+        section_parent = find(root, section.id)
         for entry in section.entries:
             if isinstance(entry, Entry):
                 check(entry.comment, entry.meta)
@@ -68,9 +73,7 @@ def plain_json_serialize(
                     raise ValueError(
                         f"Unsupported message for {section.id + entry.id}: {msg}"
                     )
-                parent = section_parent
-                for part in entry.id[:-1]:
-                    parent = parent[part]
+                parent = find(section_parent, entry.id[:-1])
                 if isinstance(parent.get(entry.id[-1], None), dict):
                     raise ValueError(
                         f"Identifier is also a prefix: {section.id + entry.id}"
-- 
2.43.0


From 81a090018b77be4ce1dd6590be464a9f61823bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:00 +0000
Subject: [PATCH 068/102] fix: refuse resource metadata with names that are not
 valid in DTD

---
 python/moz/l10n/formats/dtd/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/dtd/serialize.py b/python/moz/l10n/formats/dtd/serialize.py
index 85dd14e..d437e44 100644
--- a/python/moz/l10n/formats/dtd/serialize.py
+++ b/python/moz/l10n/formats/dtd/serialize.py
@@ -84,6 +84,8 @@ def dtd_serialize(
 
     yield from comment(resource.comment, None, True)
     for meta in resource.meta:
+        if not re_name.fullmatch(meta.key):
+            raise ValueError(f"Unsupported DTD name: {meta.key}")
         yield f"<!ENTITY % {meta.key} SYSTEM {quote(meta.value)}>\n%{meta.key};\n"
     for section in resource.sections:
         yield from comment(section.comment, section.meta, True)
-- 
2.43.0


From 79a4d7a0b0056e4e637d51910bac7bcbb8d79056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:57 +0000
Subject: [PATCH 069/102] fix: refuse empty message identifiers when
 serializing gettext

---
 python/moz/l10n/formats/gettext/serialize.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index 663678e..7d3bc88 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -148,6 +148,9 @@ def gettext_serialize(
                             raise ValueError(
                                 f'Unsupported meta entry "{m.key}" for {entry.id}: {m.value}'
                             )
+                if not pe.msgid and pe.msgctxt is None and not pe.obsolete:
+                    # Only the header of the file may have an empty msgid.
+                    raise ValueError(f"Unsupported message id: {entry.id}")
                 if not pe.obsolete or not trim_comments:
                     yield "\n"
                     yield pe.__unicode__(wrapwidth=wrapwidth)
-- 
2.43.0


From 5b41359be7648f0a458ca6da6104f4431852852e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:03 +0000
Subject: [PATCH 070/102] fix: refuse Android string-array keys that are not in
 decimal form

---
 python/moz/l10n/formats/android/serialize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 78ffde2..83416c9 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -261,7 +261,7 @@ def set_string_array_item(
         num = int(entry.id[1])
     except ValueError:
         raise ValueError(f"Unsupported entry id: {entry.id}")
-    if num != len(parent.findall("item")):
+    if num != len(parent.findall("item")) or entry.id[1] != str(num):
         raise ValueError(f"String-array keys must be ordered: {entry.id}")
     if isinstance(entry.value, SelectMessage):
         raise ValueError(f"Unsupported message type for {entry.id}: {entry.value}")
-- 
2.43.0


From 2fe94be6d39ca618b8ba9dd7688f305abd80ce60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 071/102] fix: refuse webext values of unexpected types with
 ValueError

---
 python/moz/l10n/formats/webext/parse.py | 30 ++++++++++++++++++-------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/python/moz/l10n/formats/webext/parse.py b/python/moz/l10n/formats/webext/parse.py
index cb38ecd..de76fb2 100644
--- a/python/moz/l10n/formats/webext/parse.py
+++ b/python/moz/l10n/formats/webext/parse.py
@@ -45,14 +45,28 @@ def webext_parse(source: str | bytes) -> Resource[Message]:
     The parsed resource will not include any metadata.
     """
     json: dict[str, dict[str, Any]] = json_linecomment_loads(source)[0]
-    entries: list[Entry[Message] | Comment] = [
-        Entry(
-            (key,),
-            webext_parse_message(msg["message"], msg.get("placeholders", None)),
-            comment=msg.get("description", ""),
-        )
-        for key, msg in json.items()
-    ]
+    if not isinstance(json, dict):
+        raise ValueError(f"Unexpected root value: {json}")
+    entries: list[Entry[Message] | Comment] = []
+    for key, msg in json.items():
+        if not isinstance(msg, dict) or not isinstance(msg.get("message"), str):
+            raise ValueError(f"Unexpected value at {key}: {msg}")
+        comment = msg.get("description", "")
+        if not isinstance(comment, str):
+            raise ValueError(f"Unexpected description at {key}: {comment}")
+        placeholders = msg.get("placeholders", None)
+        if placeholders is not None and not (
+            isinstance(placeholders, dict)
+            and all(
+                isinstance(ph, dict)
+                and isinstance(ph.get("content"), str)
+                and isinstance(ph.get("example", ""), str)
+                for ph in placeholders.values()
+            )
+        ):
+            raise ValueError(f"Unexpected placeholders at {key}: {placeholders}")
+        value = webext_parse_message(msg["message"], placeholders)
+        entries.append(Entry((key,), value, comment=comment))
     return Resource(Format.webext, [Section((), entries)])
 
 
-- 
2.43.0


From 466fcceaf55de2d0e279f1e8b3043bd11909230b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:25 +0000
Subject: [PATCH 072/102] fix: leave out whitespace-only Fluent comments

---
 python/moz/l10n/formats/fluent/parse.py | 24 ++++++++++++++++--------
 1 file changed, 16 insertions(+), 8 deletions(-)

diff --git a/python/moz/l10n/formats/fluent/parse.py b/python/moz/l10n/formats/fluent/parse.py
index 02e1950..d9a4680 100644
--- a/python/moz/l10n/formats/fluent/parse.py
+++ b/python/moz/l10n/formats/fluent/parse.py
@@ -80,16 +80,17 @@ def fluent_parse(
             except Exception as err:
                 raise ValueError(f"Error parsing message {entry.id.name}") from err
         elif isinstance(entry, ftl.ResourceComment):
-            if entry.content:
+            comment_str = comment_content(entry)
+            if comment_str:
                 resource.comment = (
-                    (resource.comment.rstrip() + "\n\n" + entry.content)
+                    (resource.comment.rstrip() + "\n\n" + comment_str)
                     if resource.comment
-                    else entry.content
+                    else comment_str
                 )
         elif isinstance(entry, ftl.GroupComment):
             if entries or section.comment:
                 entries = []
-                section = Section((), entries, comment=entry.content or "")
+                section = Section((), entries, comment=comment_content(entry))
                 if lpm and entry.span:
                     span = entry.span
                     section.linepos = lpm.get_linepos(
@@ -97,15 +98,16 @@ def fluent_parse(
                     )
                 resource.sections.append(section)
             else:
-                section.comment = entry.content or ""
+                section.comment = comment_content(entry)
                 if lpm and entry.span:
                     span = entry.span
                     section.linepos = lpm.get_linepos(
                         span.start, span.start, span.start, span.end
                     )
         elif isinstance(entry, ftl.Comment):
-            if entry.content:
-                comment = Comment(entry.content)
+            comment_str = comment_content(entry)
+            if comment_str:
+                comment = Comment(comment_str)
                 if lpm and entry.span:
                     span = entry.span
                     comment.linepos = lpm.get_linepos(
@@ -181,6 +183,12 @@ def fluent_parse_message(source: str) -> Message:
     return message(ftl_pattern)
 
 
+def comment_content(comment: ftl.BaseComment) -> str:
+    """The content of a comment, or an empty string if it is only whitespace."""
+    content = comment.content
+    return content if content and not content.isspace() else ""
+
+
 def fluent_entry(
     ftl_entry: ftl.Message | ftl.Term,
     lpm: LinePosMapper | None,
@@ -189,7 +197,7 @@ def fluent_entry(
     if isinstance(ftl_entry, ftl.Term):
         id = "-" + id
     value = message(ftl_entry.value) if ftl_entry.value else PatternMessage([])
-    comment = ftl_entry.comment.content or "" if ftl_entry.comment else ""
+    comment = comment_content(ftl_entry.comment) if ftl_entry.comment else ""
     entry = Entry(id=(id,), value=value, comment=comment)
 
     if lpm and ftl_entry.span:
-- 
2.43.0


From 4ab9f49df1a80ef29929dfbe59db96371f88de9c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:30 +0000
Subject: [PATCH 073/102] fix: refuse MF2 JSON message data with values of
 wrong types

---
 python/moz/l10n/formats/mf2/from_json.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/python/moz/l10n/formats/mf2/from_json.py b/python/moz/l10n/formats/mf2/from_json.py
index 654484b..8970dec 100644
--- a/python/moz/l10n/formats/mf2/from_json.py
+++ b/python/moz/l10n/formats/mf2/from_json.py
@@ -42,7 +42,7 @@ def mf2_from_json(json: dict[str, Any]) -> Message:
             raise MF2ValidationError(f"Invalid JSON message: {json}")
 
         declarations: dict[str, Expression] = {}
-        for decl in json["declarations"]:
+        for decl in _list(json["declarations"]):
             decl_type = decl["type"]
             if decl_type not in {"input", "local"}:
                 raise MF2ValidationError(f"Invalid JSON declaration type: {decl}")
@@ -63,13 +63,13 @@ def mf2_from_json(json: dict[str, Any]) -> Message:
             return PatternMessage(pattern, declarations)
 
         assert msg_type == "select"
-        selectors = tuple(_variable(sel) for sel in json["selectors"])
+        selectors = tuple(_variable(sel) for sel in _list(json["selectors"]))
         variants = {
-            tuple(_key(key) for key in vari["keys"]): _pattern(vari["value"])
-            for vari in json["variants"]
+            tuple(_key(key) for key in _list(vari["keys"])): _pattern(vari["value"])
+            for vari in _list(json["variants"])
         }
         return SelectMessage(declarations, selectors, variants)
-    except (IndexError, KeyError, TypeError) as err:
+    except (AttributeError, IndexError, KeyError, TypeError) as err:
         raise MF2ValidationError(f"Invalid JSON: {err!r}")
 
 
@@ -80,7 +80,7 @@ def _pattern(json: list[Any]) -> Pattern:
         else _markup(part)
         if part["type"] == "markup"
         else _expression(part)
-        for part in json
+        for part in _list(json)
     ]
 
 
@@ -88,8 +88,8 @@ def _expression(json: dict[str, Any]) -> Expression:
     if json["type"] != "expression":
         raise MF2ValidationError(f"Invalid JSON expression type: {json}")
     arg = _value(json["arg"]) if "arg" in json else None
-    json_func = json.get("function", None)
-    if json_func:
+    if "function" in json:
+        json_func = json["function"]
         if json_func["type"] != "function":
             raise MF2ValidationError(f"Invalid JSON function type: {json_func}")
         function = _string(json_func, "name")
@@ -154,6 +154,12 @@ def _variable(json: dict[str, Any]) -> VariableRef:
     return VariableRef(_string(json, "name"))
 
 
+def _list(json: list[Any]) -> list[Any]:
+    if not isinstance(json, list):
+        raise MF2ValidationError(f"Expected a list value: {json}")
+    return json
+
+
 def _string(obj: dict[str, Any], key: str | None = None) -> str:
     value = obj if key is None else obj.get(key, None)
     if isinstance(value, str):
-- 
2.43.0


From 0687ed8e18fff085b17da239c126782596019cc1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:26 +0000
Subject: [PATCH 074/102] fix: use the default of get_pattern() for missing
 properties and variants

---
 python/moz/l10n/migrate/utils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/python/moz/l10n/migrate/utils.py b/python/moz/l10n/migrate/utils.py
index 4b33353..f605dd0 100644
--- a/python/moz/l10n/migrate/utils.py
+++ b/python/moz/l10n/migrate/utils.py
@@ -131,6 +131,8 @@ def get_pattern(
         msg = entry.value
     elif property in entry.properties:
         msg = entry.properties[property]
+    elif default is not None:
+        return default
     else:
         raise StopIteration
 
@@ -141,11 +143,12 @@ def get_pattern(
             variant = (variant,)
         if variant in msg.variants:
             return msg.variants[variant]
-        return next(
-            pattern
-            for keys, pattern in msg.variants.items()
-            if all(isinstance(key, CatchallKey) for key in keys)
-        )
+        for keys, pattern in msg.variants.items():
+            if all(isinstance(key, CatchallKey) for key in keys):
+                return pattern
+        if default is not None:
+            return default
+        raise StopIteration
 
     raise ValueError(f"Value of {id} entry is not a Message")
 
-- 
2.43.0


From 09ac902cea15506d8e2b8ca590ff67f805809af6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 075/102] fix: discover the same paths however directories are
 listed

---
 python/moz/l10n/paths/discover.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index c5e6fb4..cff8475 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -142,6 +142,8 @@ class L10nDiscoverPaths:
         else:
             walk_roots = walk(root, topdown=True)
         for dirpath, dirnames, filenames in walk_roots:
+            # The file system may list directories in any order
+            dirnames.sort()
             locale_dirs = []
             for dir in dirnames:
                 if dir in ref_dir_scores:
-- 
2.43.0


From 2f1cc504aaad9338d2ed5d5c3d911401c2ad4254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:50:35 +0000
Subject: [PATCH 076/102] fix: report missing messages in a stable order

---
 python/moz/l10n/bin/compare.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/python/moz/l10n/bin/compare.py b/python/moz/l10n/bin/compare.py
index 7d74e76..0d7e5c1 100644
--- a/python/moz/l10n/bin/compare.py
+++ b/python/moz/l10n/bin/compare.py
@@ -113,7 +113,9 @@ def cli(
         with open(source) as f:
             source_data: dict[str, Collection[str]] = json.load(f)
         if ext_include or ext_exclude:
-            source_data = {k: set(v) for k, v in source_data.items() if ext_filter(k)}
+            source_data = {
+                k: dict.fromkeys(v) for k, v in source_data.items() if ext_filter(k)
+            }
     else:
         source_paths = (
             L10nConfigPaths(source)
@@ -207,12 +209,13 @@ def compare(
 
 def msg_ids(path: str) -> Collection[str]:
     res = parse_resource(path)
-    return {
+    # Missing messages are reported in their order in the source
+    return dict.fromkeys(
         ".".join(section.id + entry.id)
         for section in res.sections
         for entry in section.entries
         if isinstance(entry, Entry)
-    }
+    )
 
 
 if __name__ == "__main__":
-- 
2.43.0


From bb463a9a33ce2d91af2d16540268dbfa57b090bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:11:40 +0000
Subject: [PATCH 077/102] fix: read webext placeholders without content unless
 they are used

---
 python/moz/l10n/formats/webext/parse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/webext/parse.py b/python/moz/l10n/formats/webext/parse.py
index de76fb2..676f0d8 100644
--- a/python/moz/l10n/formats/webext/parse.py
+++ b/python/moz/l10n/formats/webext/parse.py
@@ -59,7 +59,7 @@ def webext_parse(source: str | bytes) -> Resource[Message]:
             isinstance(placeholders, dict)
             and all(
                 isinstance(ph, dict)
-                and isinstance(ph.get("content"), str)
+                and isinstance(ph.get("content", ""), str)
                 and isinstance(ph.get("example", ""), str)
                 for ph in placeholders.values()
             )
@@ -100,7 +100,7 @@ def webext_parse_message(
             # Named placeholder, with content & optional example in placeholders object
             ph_key = m[1].lower()
             ph = ph_data.get(ph_key, None)
-            if ph is None:
+            if ph is None or "content" not in ph:
                 raise ValueError(f"Missing placeholders entry for {ph_key}")
             elif ph_key in ph_names:
                 ph_name = ph_names[ph_key]
-- 
2.43.0


From 5eda63f424d4306337b110d9031b540d2e04c52c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:29 +0000
Subject: [PATCH 078/102] fix: strip all characters an Android placeholder name
 may not start with

For an <xliff:g id="12a">, only the first invalid character was removed,
leaving "2a" as the name of its variable.
---
 python/moz/l10n/formats/android/parse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/parse.py b/python/moz/l10n/formats/android/parse.py
index e76c208..4380bab 100644
--- a/python/moz/l10n/formats/android/parse.py
+++ b/python/moz/l10n/formats/android/parse.py
@@ -583,6 +583,6 @@ def get_var_name(src: str) -> str:
     if pm:
         return f"arg{pm[1][0]}" if pm[1] else "arg"
     name = not_name_char.sub("", src)
-    if not_name_start.match(name):
+    while not_name_start.match(name):
         name = name[1:]
     return name or "arg"
-- 
2.43.0


From 1437a83a6d86cbdaa8d6e48786519cd0be42713b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:36 +0000
Subject: [PATCH 079/102] fix: discover only target bases that are within the
 root

If the reference root is not in it, directories there with more locales
were taken as the localization target root.
---
 python/moz/l10n/paths/discover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index cff8475..a767fd3 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -150,7 +150,7 @@ class L10nDiscoverPaths:
                     ref_dirs[join(dirpath, dir)] = ref_dir_scores[dir]
                 elif locale_id.fullmatch(dir):
                     locale_dirs.append(dir)
-            if locale_dirs:
+            if locale_dirs and _dir_contains(root, dirpath):
                 base_dirs[dirpath] = locale_dirs
             dirnames[:] = (dn for dn in dirnames if not dn.startswith("."))
 
-- 
2.43.0


From 2f113b2040dab43bdef4f5e753c569117feccc52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 080/102] fix: refuse entry properties in formats that can't
 represent them

---
 python/moz/l10n/formats/android/serialize.py    | 6 ++++++
 python/moz/l10n/formats/dtd/serialize.py        | 2 ++
 python/moz/l10n/formats/gettext/serialize.py    | 2 ++
 python/moz/l10n/formats/inc/serialize.py        | 2 ++
 python/moz/l10n/formats/ini/serialize.py        | 2 ++
 python/moz/l10n/formats/plain_json/serialize.py | 2 ++
 python/moz/l10n/formats/properties/serialize.py | 2 ++
 python/moz/l10n/formats/webext/serialize.py     | 2 ++
 python/moz/l10n/formats/xliff/serialize.py      | 2 ++
 9 files changed, 22 insertions(+)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 83416c9..d687cf3 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -95,6 +95,10 @@ def android_serialize(
             if section.id == ("!ENTITY",):
                 for entry in section.entries:
                     if isinstance(entry, Entry):
+                        if entry.properties:
+                            raise ValueError(
+                                f"Unsupported entry properties: {entry.id}"
+                            )
                         entities.append(entity_definition(entry))
                 continue
             else:
@@ -103,6 +107,8 @@ def android_serialize(
         string_array = None
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Unsupported entry properties: {entry.id}")
                 if len(entry.id) not in (1, 2):
                     raise ValueError(f"Unsupported entry id: {entry.id or entry}")
                 name = entry.id[0]
diff --git a/python/moz/l10n/formats/dtd/serialize.py b/python/moz/l10n/formats/dtd/serialize.py
index d437e44..44e0e7f 100644
--- a/python/moz/l10n/formats/dtd/serialize.py
+++ b/python/moz/l10n/formats/dtd/serialize.py
@@ -92,6 +92,8 @@ def dtd_serialize(
         id_prefix = ".".join(section.id) + "." if section.id else ""
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Unsupported entry properties: {entry.id}")
                 yield from comment(entry.comment, entry.meta, False)
                 name = id_prefix + ".".join(entry.id)
                 if not re_name.fullmatch(name):
diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index 7d3bc88..cde4916 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -72,6 +72,8 @@ def gettext_serialize(
             raise ValueError(f"Section identifiers not supported: {section.id}")
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Unsupported entry properties: {entry.id}")
                 if len(entry.id) not in (1, 2):
                     raise ValueError(f"Unsupported message id: {entry.id}")
                 context = entry.id[1] if len(entry.id) == 2 else None
diff --git a/python/moz/l10n/formats/inc/serialize.py b/python/moz/l10n/formats/inc/serialize.py
index f48aaf5..fe3ac7d 100644
--- a/python/moz/l10n/formats/inc/serialize.py
+++ b/python/moz/l10n/formats/inc/serialize.py
@@ -60,6 +60,8 @@ def inc_serialize(
             raise ValueError(f"Section identifiers not supported: {section.id}")
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Unsupported entry properties: {entry.id}")
                 yield from comment(entry.comment, entry.meta, False)
                 if len(entry.id) != 1 or not re_name.fullmatch(entry.id[0]):
                     raise ValueError(f"Unsupported identifier: {entry.id}")
diff --git a/python/moz/l10n/formats/ini/serialize.py b/python/moz/l10n/formats/ini/serialize.py
index 380405f..d47d979 100644
--- a/python/moz/l10n/formats/ini/serialize.py
+++ b/python/moz/l10n/formats/ini/serialize.py
@@ -73,6 +73,8 @@ def ini_serialize(
         at_empty_line = False
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Unsupported entry properties: {entry.id}")
                 yield from comment(entry.comment, entry.meta, False)
                 msg = entry.value
                 if isinstance(msg, str):
diff --git a/python/moz/l10n/formats/plain_json/serialize.py b/python/moz/l10n/formats/plain_json/serialize.py
index 421eade..055f2bf 100644
--- a/python/moz/l10n/formats/plain_json/serialize.py
+++ b/python/moz/l10n/formats/plain_json/serialize.py
@@ -59,6 +59,8 @@ def plain_json_serialize(
         section_parent = find(root, section.id)
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Unsupported entry properties: {entry.id}")
                 check(entry.comment, entry.meta)
                 if not entry.id:
                     raise ValueError(f"Unsupported empty identifier in {section.id}")
diff --git a/python/moz/l10n/formats/properties/serialize.py b/python/moz/l10n/formats/properties/serialize.py
index d6d890f..b721580 100644
--- a/python/moz/l10n/formats/properties/serialize.py
+++ b/python/moz/l10n/formats/properties/serialize.py
@@ -107,6 +107,8 @@ def properties_serialize(
         id_prefix = ".".join(section.id) + "." if section.id else ""
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Unsupported entry properties: {entry.id}")
                 yield from comment(entry.comment, entry.meta, False)
                 key = id_prefix + ".".join(entry.id)
                 key = escape_chars(key, ensure_ascii)
diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index 43ed985..ca4bf8d 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -60,6 +60,8 @@ def webext_serialize(
         check(section.comment, section.meta)
         for entry in section.entries:
             if isinstance(entry, Entry):
+                if entry.properties:
+                    raise ValueError(f"Unsupported entry properties: {entry.id}")
                 check(None, entry.meta)
                 if len(entry.id) != 1:
                     raise ValueError(f"Unsupported entry identifier: {entry.id}")
diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index e413d3c..a6b75a1 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -131,6 +131,8 @@ def xliff_serialize(
                     parent.append(etree.Comment(comment_str))
                 continue
 
+            if entry.properties:
+                raise ValueError(f"Unsupported entry properties: {entry.id}")
             if len(entry.id) != 1:
                 raise ValueError(f"Unsupported entry id: {entry.id}")
             id = entry.id[0]
-- 
2.43.0


From 1d35bf2b2d466652bafc8c9634d0cfe873045dae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 081/102] fix: refuse conflicting gettext plural variants

---
 python/moz/l10n/formats/gettext/serialize.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index cde4916..d6c5c2e 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -117,7 +117,10 @@ def gettext_serialize(
                             raise ValueError(
                                 f"Unsupported plural key for {entry.id}: {key}"
                             )
-                        forms.setdefault(idx, pattern)
+                        if forms.setdefault(idx, pattern) != pattern:
+                            raise ValueError(
+                                f"Conflicting plural variants for {entry.id}: {key}"
+                            )
                     pe.msgstr_plural = {
                         idx: forms.get(idx, "")
                         for idx in range(max([nplurals, *(i + 1 for i in forms)]))
-- 
2.43.0


From 4cc4ed3c0040e0c87b3ebc8519eebf5f08a27b56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:17:09 +0000
Subject: [PATCH 082/102] fix: refuse Android plurals with selector options

---
 python/moz/l10n/formats/android/serialize.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index d687cf3..5cb624f 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -279,6 +279,8 @@ def set_plural_message(plurals: etree._Element, msg: SelectMessage) -> None:
     sel = msg.selector_expressions()[0] if len(msg.selectors) == 1 else None
     if len(msg.declarations) != 1 or not sel or sel.function != "number":
         raise ValueError(f"Unsupported message: {msg}")
+    if sel.options:
+        raise ValueError(f"Unsupported selector options: {sel}")
     item: etree._Element | None = None
     # Some Slavic languages use `many` as the fallback plural case,
     # and translations may exclude a literal `other` case.
-- 
2.43.0


From 57622fad7861c9cd20db9f104dd0572516afed76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:18:31 +0000
Subject: [PATCH 083/102] fix: refuse Xcode plurals with selector options

---
 python/moz/l10n/formats/xliff/serialize.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index a6b75a1..b22b3ac 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -273,7 +273,7 @@ def add_xliff_stringsdict_plural(
     if len(msg.selectors) != 1:
         raise ValueError(f"Exactly one selector is required: {msg.selectors}")
     sel = msg.selector_expressions()[0]
-    if not isinstance(sel.arg, VariableRef) or sel.function != "number":
+    if not isinstance(sel.arg, VariableRef) or sel.function != "number" or sel.options:
         raise ValueError(f"Unsupported selector: {sel}")
 
     id = entry.id[0]
@@ -368,6 +368,8 @@ def add_xcstrings_selectmessage(
             f"Serialization is only supported for messages with one selector: {msg.selectors}"
         )
     (sel,) = msg.selector_expressions()
+    if sel.options:
+        raise ValueError(f"Unsupported selector: {sel}")
 
     # Also catches empty sel_exp
     if "substitution" in sel.attributes:
-- 
2.43.0


From 58e35e4c62c7550a2ce023326de94faef6adccf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:22 +0000
Subject: [PATCH 084/102] fix: refuse options that Android placeholders and
 markup can't represent

---
 python/moz/l10n/formats/android/serialize.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 5cb624f..73ff83e 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -350,6 +350,12 @@ def set_pattern(
             ent_name = entity_name(part)
             if part.attributes.get("translate", None) == "no":
                 # <xliff:g>
+                if any(
+                    isinstance(value, VariableRef) for value in part.options.values()
+                ):
+                    raise ValueError(
+                        f"Unsupported expression with variable option: {part}"
+                    )
                 attrib = cast(dict[str, str], part.options) if part.function else None
                 nsmap = {"xliff": xliff_ns} if not el.nsmap.get("xliff", None) else None
                 node = etree.SubElement(parent, xliff_g, attrib=attrib, nsmap=nsmap)
@@ -415,7 +421,9 @@ def set_pattern(
             elif part.kind == "open":
                 parent = etree.SubElement(parent, name, attrib=attrib, nsmap=nsmap)
                 node = None
-            elif parent != el and name == parent.tag:  # kind == 'close'
+            elif part.options:  # kind == 'close'
+                raise ValueError(f"Options are not supported on closing markup: {part}")
+            elif parent != el and name == parent.tag:
                 node = parent
                 parent = cast(etree._Element, parent.getparent())
             else:
-- 
2.43.0


From 4a84727d350c83792ed508b64b4d9049846a385e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:44 +0000
Subject: [PATCH 085/102] fix: refuse duplicate identifiers in JSON files

---
 python/moz/l10n/formats/plain_json/serialize.py | 2 ++
 python/moz/l10n/formats/webext/serialize.py     | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/python/moz/l10n/formats/plain_json/serialize.py b/python/moz/l10n/formats/plain_json/serialize.py
index 055f2bf..a3c4e2d 100644
--- a/python/moz/l10n/formats/plain_json/serialize.py
+++ b/python/moz/l10n/formats/plain_json/serialize.py
@@ -80,6 +80,8 @@ def plain_json_serialize(
                     raise ValueError(
                         f"Identifier is also a prefix: {section.id + entry.id}"
                     )
+                if entry.id[-1] in parent:
+                    raise ValueError(f"Duplicate identifier: {section.id + entry.id}")
                 parent[entry.id[-1]] = value
             else:
                 check(entry.comment, None)
diff --git a/python/moz/l10n/formats/webext/serialize.py b/python/moz/l10n/formats/webext/serialize.py
index ca4bf8d..b1c55da 100644
--- a/python/moz/l10n/formats/webext/serialize.py
+++ b/python/moz/l10n/formats/webext/serialize.py
@@ -66,6 +66,8 @@ def webext_serialize(
                 if len(entry.id) != 1:
                     raise ValueError(f"Unsupported entry identifier: {entry.id}")
                 name = entry.id[0]
+                if name in res:
+                    raise ValueError(f"Duplicate identifier: {name}")
                 if isinstance(entry.value, str):
                     res[name] = {"message": entry.value}
                     if not trim_comments and entry.comment:
-- 
2.43.0


From e34ff31d13bdcf01f2db38b30c7238f57a934327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:44 +0000
Subject: [PATCH 086/102] fix: refuse repeated metadata keys in formats that
 can't represent them

---
 python/moz/l10n/formats/android/serialize.py | 7 ++++++-
 python/moz/l10n/formats/gettext/serialize.py | 2 ++
 python/moz/l10n/formats/xliff/serialize.py   | 7 ++++++-
 3 files changed, 14 insertions(+), 2 deletions(-)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 73ff83e..8337ab2 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -81,6 +81,8 @@ def android_serialize(
             root_nsmap[None] = v
         elif k.startswith("xmlns:"):
             root_nsmap[k[6:]] = v
+        elif k in root_attrib:
+            raise ValueError(f"Duplicate metadata: {k}")
         else:
             root_attrib[k] = v
     root = etree.Element("resources", attrib=root_attrib, nsmap=root_nsmap)
@@ -131,13 +133,14 @@ def android_serialize(
                         set_pattern_message(el, entry.value, allow_cdata=True)
                 else:
                     # <string-array>
+                    attrib = get_attrib(name, entry.meta)
                     if (
                         string_array is None
                         or name != string_array.get("name")
                         or entry.id[1] == "0"  # e.g. for another product
                     ):
                         string_array = etree.SubElement(
-                            root, "string-array", attrib=get_attrib(name, entry.meta)
+                            root, "string-array", attrib=attrib
                         )
                     if entry.comment and not trim_comments:
                         add_comment(string_array, entry.comment, False)
@@ -209,6 +212,8 @@ def get_attrib(name: str, meta: list[Metadata]) -> dict[str, str]:
     for m in meta:
         if m.key == "name":
             raise ValueError(f'Unsupported "name" metadata for {name}')
+        if m.key in res:
+            raise ValueError(f"Duplicate metadata for {name}: {m.key}")
         res[m.key] = m.value
     return res
 
diff --git a/python/moz/l10n/formats/gettext/serialize.py b/python/moz/l10n/formats/gettext/serialize.py
index d6c5c2e..0c644f0 100644
--- a/python/moz/l10n/formats/gettext/serialize.py
+++ b/python/moz/l10n/formats/gettext/serialize.py
@@ -51,6 +51,8 @@ def gettext_serialize(
     if not trim_comments and resource.comment and not resource.comment.isspace():
         header = resource.comment.rstrip() + "\n"
     pf.metadata = {m.key: m.value for m in resource.meta}
+    if len(pf.metadata) != len(resource.meta):
+        raise ValueError("Duplicate metadata keys are not supported")
     # polib would turn comment lines starting with , or : into flags or references.
     # With an empty pf.header, str(pf) starts with a line containing only #.
     header_lines = header.split("\n")[:-1]
diff --git a/python/moz/l10n/formats/xliff/serialize.py b/python/moz/l10n/formats/xliff/serialize.py
index b22b3ac..f97745b 100644
--- a/python/moz/l10n/formats/xliff/serialize.py
+++ b/python/moz/l10n/formats/xliff/serialize.py
@@ -79,6 +79,8 @@ def xliff_serialize(
             root_nsmap[None] = v
         elif k.startswith("@xmlns:"):
             root_nsmap[k[7:]] = v
+        elif any(m.key == k for m in root_attrib):
+            raise ValueError(f"Duplicate metadata: {k}")
         elif k.startswith("@"):
             root_attrib.append(m)
         else:
@@ -444,7 +446,10 @@ def assign_metadata(
         elif key == "comment()":
             el.append(etree.Comment(m.value))
         elif key.startswith("@"):
-            el.attrib[clark_name(el.nsmap, key[1:])] = m.value
+            name = clark_name(el.nsmap, key[1:])
+            if name in el.attrib:
+                raise ValueError(f"Duplicate metadata: {m.key}")
+            el.attrib[name] = m.value
         else:
             if "/" in key:
                 q = m.key
-- 
2.43.0


From 52fe42c1f42caf2f643c95a231afb97dbf7d6bf3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:37:45 +0000
Subject: [PATCH 087/102] fix: refuse differing metadata of Android
 string-array items

---
 python/moz/l10n/formats/android/serialize.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/python/moz/l10n/formats/android/serialize.py b/python/moz/l10n/formats/android/serialize.py
index 8337ab2..0de6028 100644
--- a/python/moz/l10n/formats/android/serialize.py
+++ b/python/moz/l10n/formats/android/serialize.py
@@ -142,6 +142,10 @@ def android_serialize(
                         string_array = etree.SubElement(
                             root, "string-array", attrib=attrib
                         )
+                    elif entry.meta and attrib != dict(string_array.attrib):
+                        raise ValueError(
+                            f"All string-array metadata must be the same: {entry.id}"
+                        )
                     if entry.comment and not trim_comments:
                         add_comment(string_array, entry.comment, False)
                     set_string_array_item(string_array, entry)
-- 
2.43.0


From bcd0f9f187270ff064c14465dd02b620538147e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:39:15 +0000
Subject: [PATCH 088/102] fix: format discovered target paths that contain
 braces

---
 python/moz/l10n/paths/discover.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/python/moz/l10n/paths/discover.py b/python/moz/l10n/paths/discover.py
index a767fd3..44236f8 100644
--- a/python/moz/l10n/paths/discover.py
+++ b/python/moz/l10n/paths/discover.py
@@ -295,7 +295,7 @@ class L10nDiscoverPaths:
 
     def format_target_path(self, target: str, locale: str) -> str:
         locale = _locale_dirname(self._base(), locale, self.locale_dir_sep)
-        return normpath(target.format(locale=locale))
+        return normpath(target.replace("{locale}", locale))
 
     def find_reference(self, target: str) -> tuple[str, dict[str, str]] | None:
         """
-- 
2.43.0


From 0c4a03a1e960d03f90a25ad754dc7c1210164251 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 089/102] fix: quote MF2 variant keys when required in JS

---
 js/src/mf2-serialize.ts | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/js/src/mf2-serialize.ts b/js/src/mf2-serialize.ts
index c2c5770..23f30df 100644
--- a/js/src/mf2-serialize.ts
+++ b/js/src/mf2-serialize.ts
@@ -36,7 +36,9 @@ export function mf2SerializeMessage(msg: Message) {
   for (const sel of msg.sel) res += ' $' + sel
   for (const { keys, pat } of msg.alt) {
     res += '\n'
-    for (const key of keys) res += typeof key === 'string' ? key + ' ' : '* '
+    for (const key of keys) {
+      res += typeof key === 'string' ? literal(key) + ' ' : '* '
+    }
     res += mf2SerializePattern(pat, true)
   }
   return res
-- 
2.43.0


From 920a19ec9a464274ca990a3a304492f1e7210f43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 090/102] fix: quote MF2 literals that only resemble numbers in
 JS

---
 js/src/mf2-serialize.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/mf2-serialize.ts b/js/src/mf2-serialize.ts
index 23f30df..dc720d9 100644
--- a/js/src/mf2-serialize.ts
+++ b/js/src/mf2-serialize.ts
@@ -119,7 +119,7 @@ const name = new RegExp(
   `^[${nameStart}][${nameStart}0-9-.\\xb7\\u0300-\\u036f\\u203f-\\u2040]*$`,
   'u'
 )
-const number = /^-?(?:0|(?:[1-9]\d*))(?:.\d+)?(?:[eE][-+]?\d+)?$/
+const number = /^-?(?:0|(?:[1-9]\d*))(?:\.\d+)?(?:[eE][-+]?\d+)?$/
 function literal(lit: string) {
   return name.test(lit) || number.test(lit)
     ? lit
-- 
2.43.0


From 2db6368e84371b6915e45d5920fbb83a2eccff7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:48:20 +0000
Subject: [PATCH 091/102] fix: quote MF2 patterns starting with whitespace and
 a period in JS

---
 js/src/mf2-serialize.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/js/src/mf2-serialize.ts b/js/src/mf2-serialize.ts
index dc720d9..e735c09 100644
--- a/js/src/mf2-serialize.ts
+++ b/js/src/mf2-serialize.ts
@@ -46,7 +46,8 @@ export function mf2SerializeMessage(msg: Message) {
 
 /**
  * @param quoted - If `true`, the pattern is always {{quoted}}.
- *   If `'auto'`, the pattern is quoted if it starts with a {{.period}}.
+ *   If `'auto'`, the pattern is quoted if it starts with a {{.period}},
+ *   possibly after some whitespace.
  *   If `false`, the output pattern is never quoted.
  */
 export function mf2SerializePattern(
@@ -61,11 +62,15 @@ export function mf2SerializePattern(
       str += isExpression(part) ? expression(part) : markup(part)
     }
   }
-  return quoted === true || (quoted === 'auto' && str.startsWith('.'))
+  return quoted === true || (quoted === 'auto' && complexStart.test(str))
     ? '{{' + str + '}}'
     : str
 }
 
+const complexStart =
+  // eslint-disable-next-line no-misleading-character-class
+  /^[\t\n\r \u3000\u061c\u200e\u200f\u2066-\u2069]*\./
+
 function expression(expr: Expression) {
   let str = '{'
   let hasArg = true
-- 
2.43.0


From 9a47ccfee84cd664ce7b63506e8161570f925279 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:51 +0000
Subject: [PATCH 092/102] fix: decode escaped line separators in .properties
 patterns in JS

---
 js/src/properties-parse.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/properties-parse.ts b/js/src/properties-parse.ts
index 621f54d..d363f8c 100644
--- a/js/src/properties-parse.ts
+++ b/js/src/properties-parse.ts
@@ -16,7 +16,7 @@
 import type { Pattern } from './model.ts'
 
 export function propertiesParsePattern(src: string): Pattern {
-  const value = src.replace(/\\(u[0-9A-Fa-f]{1,4}|.)/g, decodeEscape)
+  const value = src.replace(/\\(u[0-9A-Fa-f]{1,4}|[^\n\r])/g, decodeEscape)
   return value ? [value] : []
 }
 
-- 
2.43.0


From e79c4722c77f429dfc583620bea7de07cbc62865 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:36 +0000
Subject: [PATCH 093/102] fix: indent Fluent lines only after line feeds in JS

---
 js/src/fluent-serialize.ts | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index 9f503fa..40894cc 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -42,7 +42,7 @@ export function fluentSerializeEntry(
   const msgStr = fluentSerializeMessage(entry['='], options)
   if (msgStr) {
     str += msgStr.includes('\n')
-      ? '\n' + msgStr.replace(/^/gm, '    ')
+      ? '\n' + msgStr.replace(/^|\n/g, '$&    ')
       : ' ' + msgStr
   } else if (isTerm || !entry['+']) {
     str += ' { "" }'
@@ -59,7 +59,7 @@ export function fluentSerializeEntry(
       str += `    .${name} =`
       const attrStr = fluentSerializeMessage(value, options) || '{ "" }'
       str += attrStr.includes('\n')
-        ? `\n${attrStr.replace(/^/gm, '        ')}\n`
+        ? `\n${attrStr.replace(/^|\n/g, '$&        ')}\n`
         : ` ${attrStr}\n`
     }
   }
@@ -157,7 +157,7 @@ function variant(
   const pre = `   ${d}[${k}]`
   const value = pattern.join('').trimEnd() || '{ "" }'
   return value.includes('\n')
-    ? `${pre}\n${value.replace(/^/gm, '        ')}\n`
+    ? `${pre}\n${value.replace(/^|\n/g, '$&        ')}\n`
     : `${pre} ${value}\n`
 }
 
-- 
2.43.0


From 0bb8c1dc7773cc9f59597c5461f9f3f91c0d5532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:51:36 +0000
Subject: [PATCH 094/102] fix: write Fluent string literals that look like
 numbers as strings in JS

---
 js/src/fluent-serialize.ts | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index 40894cc..a0206a7 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -221,7 +221,9 @@ function expression(
   }
 
   let arg: string | undefined
-  if ('_' in expr && expr._ !== undefined) arg = literal(expr._)
+  if ('_' in expr && expr._ !== undefined)
+    arg =
+      !expr.fn || expr.fn === 'string' ? quoted(expr._) : literal(expr._)
   else if ('$' in expr && isIdentifier(expr.$)) arg = '$' + expr.$
 
   if ('fn' in expr && isIdentifier(expr.fn)) {
@@ -307,7 +309,10 @@ function expression(
 
 function literal(value: string | undefined): string {
   if (!value) return '""'
-  if (/^-?\d+(\.\d*)?$/.test(value)) return value
+  return /^-?\d+(\.\d*)?$/.test(value) ? value : quoted(value)
+}
+
+function quoted(value: string): string {
   const escStr = value
     // eslint-disable-next-line no-control-regex
     .replace(/[\x00-\x1F\\"\x7F-\x9F]/g, (ch) => {
-- 
2.43.0


From fda9aa34f92b15cc31f8490f8a78c22cb458e73d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:01 +0000
Subject: [PATCH 095/102] fix: quote Fluent literals ending with a decimal
 point in JS

---
 js/src/fluent-serialize.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index a0206a7..d78248e 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -309,7 +309,7 @@ function expression(
 
 function literal(value: string | undefined): string {
   if (!value) return '""'
-  return /^-?\d+(\.\d*)?$/.test(value) ? value : quoted(value)
+  return /^-?\d+(\.\d+)?$/.test(value) ? value : quoted(value)
 }
 
 function quoted(value: string): string {
-- 
2.43.0


From a857baeb7316c24964fe9c7f366cfcc3ff050566 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:52:01 +0000
Subject: [PATCH 096/102] fix: escape the first character of multiline Fluent
 patterns in JS

---
 js/src/fluent-serialize.ts | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index d78248e..85140b0 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -197,6 +197,9 @@ export function fluentSerializePattern(
       }
     }
   }
+  // A multiline pattern is started on a line of its own
+  if (escapeSyntax && /^[*.[][^]*\n/.test(str))
+    str = `{ "${str[0]}" }${str.slice(1)}`
   return str
 }
 
-- 
2.43.0


From 01e31c698c704e35130ba676b6cac3a8e81e2bab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:17 +0000
Subject: [PATCH 097/102] fix: keep custom functions of Fluent selectors
 without options in JS

---
 js/src/fluent-serialize.ts | 1 +
 1 file changed, 1 insertion(+)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index 85140b0..0e1dcdb 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -98,6 +98,7 @@ export function fluentSerializeMessage(
     const selector =
       isIdentifier(selExpr.$) &&
       !selExpr.opt &&
+      !selExpr.attr?.['fluent-fn'] &&
       (selExpr.fn === 'number' || selExpr.fn === 'string')
         ? '$' + selExpr.$
         : expression(selExpr, undefined, true)
-- 
2.43.0


From 9afa387db48dd8dd0d1a83712f9596964fa2f1e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:53:17 +0000
Subject: [PATCH 098/102] fix: do not drop function arguments with unsupported
 names from Fluent in JS

---
 js/src/fluent-serialize.ts | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index 0e1dcdb..e066667 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -228,7 +228,13 @@ function expression(
   if ('_' in expr && expr._ !== undefined)
     arg =
       !expr.fn || expr.fn === 'string' ? quoted(expr._) : literal(expr._)
-  else if ('$' in expr && isIdentifier(expr.$)) arg = '$' + expr.$
+  else if ('$' in expr && expr.$ !== undefined) {
+    if (!isIdentifier(expr.$)) {
+      const error = `fluent: Unsupported variable name ${expr.$}`
+      throw new SerializeError(error)
+    }
+    arg = '$' + expr.$
+  }
 
   if ('fn' in expr && isIdentifier(expr.fn)) {
     const options: string[] = []
-- 
2.43.0


From 7a99e67dac129f2265780b273c54e8c9eff0244c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:27 +0000
Subject: [PATCH 099/102] fix: refuse invalid Fluent attribute names in JS

---
 js/src/fluent-serialize.ts | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index e066667..c2ec3c9 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -56,6 +56,8 @@ export function fluentSerializeEntry(
       return an < bn ? -1 : an > bn ? 1 : 0
     })
     for (const [name, value] of properties) {
+      if (!isIdentifier(name))
+        throw new SerializeError(`Unsupported attribute name: ${name}`)
       str += `    .${name} =`
       const attrStr = fluentSerializeMessage(value, options) || '{ "" }'
       str += attrStr.includes('\n')
-- 
2.43.0


From 6ee4bf7a42619930be128318dbb23a5af172d900 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:54:27 +0000
Subject: [PATCH 100/102] fix: require a default variant for each Fluent select
 expression in JS

---
 js/src/fluent-serialize.ts | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index c2ec3c9..24375b6 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -106,6 +106,15 @@ export function fluentSerializeMessage(
         : expression(selExpr, undefined, true)
     let baseKeys = ''
     let selPattern: string[] | null = null
+    let defaults = 0
+    const endSelect = () => {
+      if (selPattern) {
+        if (defaults !== 1)
+          throw new SerializeError(`Exactly one default variant is required`)
+        selPattern.push('}')
+        defaults = 0
+      }
+    }
     let i = 0
     while (i < variants.length) {
       const [keys, pattern] = variants[i]
@@ -116,14 +125,15 @@ export function fluentSerializeMessage(
         selPattern.push(varBody)
         variants.splice(i, 1)
       } else {
-        if (selPattern) selPattern.push('}')
+        endSelect()
         baseKeys = jsonKeys
         selPattern = pattern //ftl.SelectExpression(selector.clone(), [ftl_variant])
         selPattern.splice(0, selPattern.length, `{ ${selector} ->\n${varBody}`)
         i += 1
       }
+      if (typeof key !== 'string') defaults += 1
     }
-    if (selPattern) selPattern.push('}')
+    endSelect()
   }
   if (variants.length !== 1)
     throw new SerializeError(
-- 
2.43.0


From 6aac4a3b17b70568c517ac9df0d4ed3b2741727d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:57:29 +0000
Subject: [PATCH 101/102] fix: normalize messages with variables named as
 Object properties in JS

---
 js/src/model-utils.ts | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/js/src/model-utils.ts b/js/src/model-utils.ts
index 117bae6..4cae990 100644
--- a/js/src/model-utils.ts
+++ b/js/src/model-utils.ts
@@ -97,7 +97,7 @@ function normalizeDeclarations(
   msg: PatternMessage | SelectMessage,
   varRefs: Set<string>
 ): Record<string, Expression> | null {
-  const declRefs: Record<string, Set<string>> = {}
+  const declRefs: Record<string, Set<string>> = Object.create(null)
   for (const [name, decl] of Object.entries(msg.decl)) {
     const refs = new Set<string>()
     if (typeof decl.$ === 'string' && decl.$ !== name) refs.add(decl.$)
-- 
2.43.0


From 0cd38cd66efa0cff6aa9dc6155446c5133e9d557 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:58:42 +0000
Subject: [PATCH 102/102] fix: serialize Fluent variables named as Object
 properties in JS

---
 js/src/fluent-serialize.ts | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/js/src/fluent-serialize.ts b/js/src/fluent-serialize.ts
index 24375b6..88f7d32 100644
--- a/js/src/fluent-serialize.ts
+++ b/js/src/fluent-serialize.ts
@@ -222,7 +222,9 @@ function expression(
   isSelector: boolean
 ): string {
   if (declarations && expr.$) {
-    let decl = declarations[expr.$]
+    const getDecl = (name: string | undefined) =>
+      name && Object.hasOwn(declarations, name) ? declarations[name] : undefined
+    let decl = getDecl(expr.$)
     while (decl) {
       if (decl.fn && expr.fn && decl.fn !== expr.fn) {
         const error = `fluent: Unsupported placeholder ${JSON.stringify(expr)} with declaration ${JSON.stringify(decl)}`
@@ -232,7 +234,7 @@ function expression(
       const v1: string = decl.$!
       expr = expr.fn ? ({ ...expr, $: v1 } as Expression) : decl
       if (v0 === v1) break
-      else decl = declarations[v1]
+      else decl = getDecl(v1)
     }
   }
 
-- 
2.43.0

