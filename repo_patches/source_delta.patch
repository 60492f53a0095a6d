From ed350ee5fedf3bb393a0ac74fb3287a40ad70779 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:58:55 +0000
Subject: [PATCH 01/69] fix: Prep.remove_patch_macro() ignored a macro at index
 0

---
 specfile/prep.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/prep.py b/specfile/prep.py
index bf5c880..5cfa823 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -347,7 +347,7 @@ class Prep(collections.abc.Container):
             ),
             None,
         )
-        if index:
+        if index is not None:
             del self.macros[index]
 
     @classmethod
-- 
2.43.0


From 4e4585b7de2e0b21100f59bf229c4944d0ab9420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:02 +0000
Subject: [PATCH 02/69] fix: deleting a tag or macro definition by name lost
 the lines above it

---
 specfile/macro_definitions.py | 4 ++--
 specfile/tags.py              | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index cc7c775..678e23f 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -207,9 +207,9 @@ class MacroDefinitions(UserList[MacroDefinition]):
 
     def __delattr__(self, name: str) -> None:
         if name not in self:
-            return super().__getattribute__(name)
+            return super().__delattr__(name)
         try:
-            del self.data[self.find(name)]
+            del self[self.find(name)]
         except ValueError:
             raise AttributeError(name)
 
diff --git a/specfile/tags.py b/specfile/tags.py
index f89c4a0..fe7c7c3 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -419,7 +419,7 @@ class Tags(UserList[Tag]):
         if name not in self:
             return super().__delattr__(name)
         try:
-            del self.data[self.find(name)]
+            del self[self.find(name)]
         except ValueError:
             raise AttributeError(name)
 
-- 
2.43.0


From e380d42d3b180a3e5d39e643a5e734c619e84f8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:08 +0000
Subject: [PATCH 03/69] fix: Prep.parse() dropped conditional wrapper of lines
 without a %prep macro

---
 specfile/prep.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/specfile/prep.py b/specfile/prep.py
index 5cfa823..4209ead 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -367,6 +367,7 @@ class Prep(collections.abc.Container):
         data = []
         buffer: List[str] = []
         for line in section:
+            raw_line = line
             line, prefix, suffix = split_conditional_macro_expansion(line)
             m = macro_regex.search(line)
             if m:
@@ -377,7 +378,7 @@ class Prep(collections.abc.Container):
                 )
                 if delimiter == "" and option_string != "":
                     # delimiter can't be empty unless the match is just base macro with no options
-                    buffer.append(line)
+                    buffer.append(raw_line)
                     continue
                 prefix += line[: m.start("m")]
                 suffix = line[m.end("o") :] + suffix
@@ -390,7 +391,7 @@ class Prep(collections.abc.Container):
                     None,
                 )
                 if not klass:
-                    buffer.append(line)
+                    buffer.append(raw_line)
                     continue
                 options = Options(
                     Options.tokenize(option_string),
@@ -400,7 +401,7 @@ class Prep(collections.abc.Container):
                 data.append(klass(name, options, delimiter, prefix, suffix, buffer))
                 buffer = []
             else:
-                buffer.append(line)
+                buffer.append(raw_line)
         return cls(PrepMacros(data, buffer))
 
     def get_raw_section_data(self) -> List[str]:
-- 
2.43.0


From 1b995a13d6d774c7a437e5cbb225b99a26465c9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:13 +0000
Subject: [PATCH 04/69] fix: macros following an escaped %% could be taken for
 literal text

---
 specfile/value_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 1b57c26..b219a0c 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -250,7 +250,7 @@ class ValueParser:
                 end = value.index("%", start + offset)
                 try:
                     if value[end + 1] == "%":
-                        offset = end + 2
+                        offset = end + 2 - start
                         continue
                 except IndexError:
                     raise UnterminatedMacroException
-- 
2.43.0


From e0ec6686ae37601231b27e768a48cd61e5e8d80b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:19 +0000
Subject: [PATCH 05/69] fix: escaped brackets inside macros were counted when
 looking for the macro end

---
 specfile/value_parser.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index b219a0c..ac408ed 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -215,15 +215,18 @@ class ValueParser:
 
         def find_matching_parenthesis(index):
             level = 0
-            for i in range(index, len(value)):
+            i = index
+            while i < len(value):
                 if value[i] == "\\":
-                    continue
+                    # ignore escaped character
+                    i += 1
                 elif value[i] == pairs[value[index]]:
                     level -= 1
                     if level <= 0:
                         return i + 1
                 elif value[i] == value[index]:
                     level += 1
+                i += 1
             return None
 
         def find_macro_end(index):
-- 
2.43.0


From bb11f2efe4a98e5dbae30214bedf181d9e707355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:26 +0000
Subject: [PATCH 06/69] fix: %** was split into %* and a literal asterisk

---
 specfile/value_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index ac408ed..35eb6f1 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -239,7 +239,7 @@ class ValueParser:
                 i += 1
             while i < len(value) and (value[i].isalnum() or value[i] == "_"):
                 i += 1
-            if i + 1 < len(value) and value[i : i + 1] == "**":
+            if i + 1 < len(value) and value[i : i + 2] == "**":
                 i += 2
             elif i < len(value) and value[i] in "*#":
                 i += 1
-- 
2.43.0


From 6bb6a4e187f29aec7ac8364eb1ed7e4b3cd0318a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:31 +0000
Subject: [PATCH 07/69] fix: whitespace in %{macro args} was not preserved and
 %{} was not parseable

---
 specfile/value_parser.py | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index 35eb6f1..b88a548 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -102,18 +102,26 @@ class EnclosedMacroSubstitution(Node):
             self.prefix, rest = "", tokens[0]
         else:
             _, self.prefix, rest = tokens
-        self.name: str
-        self.args: List[str]
-        self.name, *self.args = rest.split()
+        tokens = re.split(r"(\s+)", rest)
+        self.name: str = tokens[0]
+        self.args: List[str] = [t for t in tokens[2::2] if t]
+        self._delimiters: List[str] = tokens[1::2]
+
+    def _get_body(self) -> str:
+        # preserve original whitespace
+        delimiters = self._delimiters + [" "] * (len(self.args) - len(self._delimiters))
+        args = "".join(
+            d + a
+            for d, a in itertools.zip_longest(delimiters, self.args, fillvalue="")
+        )
+        return self.prefix + self.name + args
 
     @formatted
     def __repr__(self) -> str:
-        args = (" " + " ".join(self.args)) if self.args else ""
-        return f"EnclosedMacroSubstitution({(self.prefix + self.name + args)!r})"
+        return f"EnclosedMacroSubstitution({self._get_body()!r})"
 
     def __str__(self) -> str:
-        args = (" " + " ".join(self.args)) if self.args else ""
-        return f"%{{{self.prefix}{self.name}{args}}}"
+        return f"%{{{self._get_body()}}}"
 
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, self.__class__):
-- 
2.43.0


From 16ea21b06b1bee4775267fa25b59df0005a1984f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:00:59 +0000
Subject: [PATCH 08/69] fix: %{macro args} with a colon in args was taken for a
 built-in or conditional

---
 specfile/value_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index b88a548..ebafef1 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -280,7 +280,8 @@ class ValueParser:
             elif value[start + 1] == "[":
                 result.append(ExpressionExpansion(value[start + 2 : end - 1]))
             elif value[start + 1] == "{":
-                if ":" in value[start:end]:
+                # colon following a space is part of arguments
+                if ":" in value[start:end].split(" ", maxsplit=1)[0]:
                     condition, body = value[start + 2 : end - 1].split(":", maxsplit=1)
                     tokens = re.split(r"^([?!]*)", condition, maxsplit=1)
                     prefix = tokens[0 if len(tokens) == 1 else 1]
-- 
2.43.0


From bb768d2844612ad3a7b8fc75d9b81843175c8bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:05 +0000
Subject: [PATCH 09/69] fix: deleting an item with a negative index misplaced
 or lost its surrounding lines

---
 specfile/changelog.py         | 2 +-
 specfile/macro_definitions.py | 2 +-
 specfile/prep.py              | 2 +-
 specfile/tags.py              | 2 +-
 4 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 506a6f4..3f45575 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -257,7 +257,7 @@ class Changelog(UserList[ChangelogEntry]):
             for index in reversed(range(len(self.data))[i]):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def copy(self) -> "Changelog":
         return copy.copy(self)
diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 678e23f..04118db 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -242,7 +242,7 @@ class MacroDefinitions(UserList[MacroDefinition]):
             for index in reversed(range(len(self.data))[i]):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def copy(self) -> "MacroDefinitions":
         return copy.copy(self)
diff --git a/specfile/prep.py b/specfile/prep.py
index 4209ead..8174d19 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -219,7 +219,7 @@ class PrepMacros(UserList[PrepMacro]):
             for index in reversed(range(len(self.data))[i]):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def __getattr__(self, name: str) -> PrepMacro:
         if not valid_prep_macro(name):
diff --git a/specfile/tags.py b/specfile/tags.py
index fe7c7c3..03bb72d 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -386,7 +386,7 @@ class Tags(UserList[Tag]):
             for index in reversed(range(len(self.data))[i]):
                 delete(index)
         else:
-            delete(i)
+            delete(range(len(self.data))[i])
 
     def __contains__(self, name: object) -> bool:
         try:
-- 
2.43.0


From 0b83749d046f5d26bff697567348a743653dac05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:29 +0000
Subject: [PATCH 10/69] fix: deleting a slice with a negative step removed
 wrong items

---
 specfile/changelog.py         | 2 +-
 specfile/macro_definitions.py | 2 +-
 specfile/options.py           | 2 +-
 specfile/prep.py              | 2 +-
 specfile/sources.py           | 3 ++-
 specfile/tags.py              | 2 +-
 6 files changed, 7 insertions(+), 6 deletions(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 3f45575..83266ca 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -254,7 +254,7 @@ class Changelog(UserList[ChangelogEntry]):
                 self._predecessor.extend(following_lines[1:])
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
             delete(range(len(self.data))[i])
diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 04118db..4f95698 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -239,7 +239,7 @@ class MacroDefinitions(UserList[MacroDefinition]):
                 self._remainder = preceding_lines + self._remainder
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
             delete(range(len(self.data))[i])
diff --git a/specfile/options.py b/specfile/options.py
index a6d7d8c..e579113 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -136,7 +136,7 @@ class Positionals(collections.abc.MutableSequence):
 
         items = self._get_items()
         if isinstance(i, slice):
-            for index in reversed(items[i]):
+            for index in sorted(items[i], reverse=True):
                 delete(index)
         else:
             delete(items[i])
diff --git a/specfile/prep.py b/specfile/prep.py
index 8174d19..f5dadd2 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -216,7 +216,7 @@ class PrepMacros(UserList[PrepMacro]):
                 self._remainder = preceding_lines + self._remainder
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
             delete(range(len(self.data))[i])
diff --git a/specfile/sources.py b/specfile/sources.py
index a4c2bf0..6c21295 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -341,7 +341,8 @@ class Sources(collections.abc.MutableSequence):
     def __delitem__(self, i: Union[int, slice]) -> None:
         items = self._get_items()
         if isinstance(i, slice):
-            for _, container, index in reversed(items[i]):
+            for i1 in sorted(range(len(items))[i], reverse=True):
+                _, container, index = items[i1]
                 del container[index]
         else:
             _, container, index = items[i]
diff --git a/specfile/tags.py b/specfile/tags.py
index 03bb72d..efffa25 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -383,7 +383,7 @@ class Tags(UserList[Tag]):
             )
 
         if isinstance(i, slice):
-            for index in reversed(range(len(self.data))[i]):
+            for index in sorted(range(len(self.data))[i], reverse=True):
                 delete(index)
         else:
             delete(range(len(self.data))[i])
-- 
2.43.0


From 313299397975affd27f1a7b04d685f10c24460aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:01:35 +0000
Subject: [PATCH 11/69] fix: numbering restarted with every
 %sourcelist/%patchlist section

---
 specfile/sources.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index 6c21295..3ff76be 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -388,9 +388,11 @@ class Sources(collections.abc.MutableSequence):
         )
         last_number = result[-1][0].number if result else -1
         result.extend(
-            (self.list_class(sl[i], last_number + 1 + i), sl, i)
-            for sl in self._sourcelists
-            for i in range(len(sl))
+            (self.list_class(sl[i], number), sl, i)
+            for number, (sl, i) in enumerate(
+                ((sl, i) for sl in self._sourcelists for i in range(len(sl))),
+                start=last_number + 1,
+            )
         )
         return result
 
-- 
2.43.0


From b269516ff8a822b6717589c55d47d3cb5da93926 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:00 +0000
Subject: [PATCH 12/69] fix: %sourcelist/%patchlist sections were matched
 case-sensitively

---
 specfile/specfile.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 92b8d8f..055da6c 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -366,7 +366,7 @@ class Specfile:
             sourcelists = [
                 (s, Sourcelist.parse(s, context=self))
                 for s in sections
-                if s.id == "sourcelist"
+                if s.normalized_name == "sourcelist"
             ]
             try:
                 yield Sources(
@@ -407,7 +407,7 @@ class Specfile:
             patchlists = [
                 (s, Sourcelist.parse(s, context=self))
                 for s in sections
-                if s.id == "patchlist"
+                if s.normalized_name == "patchlist"
             ]
             try:
                 yield Patches(
-- 
2.43.0


From 45036d32743260d12334b2d93b6772ef3d1caeed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:06 +0000
Subject: [PATCH 13/69] fix: whitespace-only lines were listed as
 %sourcelist/%patchlist entries

---
 specfile/sourcelist.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/sourcelist.py b/specfile/sourcelist.py
index 7eea32a..4bdd759 100644
--- a/specfile/sourcelist.py
+++ b/specfile/sourcelist.py
@@ -143,7 +143,7 @@ class Sourcelist(UserList[SourcelistEntry]):
         data = []
         buffer: List[str] = []
         for line, valid in lines:
-            if line and not line.lstrip().startswith("#"):
+            if line.strip() and not line.lstrip().startswith("#"):
                 data.append(
                     SourcelistEntry(line, Comments.parse(buffer), valid, context)
                 )
-- 
2.43.0


From 6480c6075d65003f3eea5687a4e76f3114083aad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:02:11 +0000
Subject: [PATCH 14/69] fix: slicing Sources/Patches failed for an empty slice
 and returned a tuple

---
 specfile/sources.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index 3ff76be..b5f54c5 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -318,7 +318,7 @@ class Sources(collections.abc.MutableSequence):
     def __getitem__(self, i):
         items = self._get_items()
         if isinstance(i, slice):
-            return list(zip(*items[i]))[0]
+            return [source for source, _, _ in items[i]]
         else:
             return items[i][0]
 
-- 
2.43.0


From 8d348768b1a4fa6906bde24cf64f4774008208dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:07 +0000
Subject: [PATCH 15/69] fix: form feeds and similar characters were turned into
 newlines, empty files failed with IndexError

---
 specfile/sections.py | 4 +++-
 specfile/specfile.py | 5 ++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index 7b5ae98..372dd7c 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -134,7 +134,9 @@ class Section(collections.UserList):
     def get_raw_data(self) -> List[str]:
         if self.normalized_id == PREAMBLE:
             return self.data
-        return str(self).splitlines()
+        # do not use splitlines(), it splits also on characters other than newline
+        lines = str(self).split("\n")
+        return lines if lines[-1] else lines[:-1]
 
 
 class Sections(UserList[Section]):
diff --git a/specfile/specfile.py b/specfile/specfile.py
index 055da6c..889ade4 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -122,7 +122,10 @@ class Specfile:
     @staticmethod
     def _read_lines(path: Path) -> Tuple[List[str], bool]:
         content = path.read_text(encoding="utf8", errors="surrogateescape")
-        return content.splitlines(), content[-1] == "\n"
+        # do not use splitlines(), it splits also on characters other than newline
+        if content.endswith("\n"):
+            return content[:-1].split("\n"), True
+        return content.split("\n") if content else [], False
 
     @property
     def path(self) -> Path:
-- 
2.43.0


From 9250bdd6afd643aaf1b76c492e478862d84d111e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:12 +0000
Subject: [PATCH 16/69] fix: spec files not encoded in UTF-8 could not be
 parsed

---
 specfile/spec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 0dfb2fc..94e855f 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -225,7 +225,7 @@ class SpecParser:
                     Macros.define(name, value)
             Macros.define("_sourcedir", str(self.sourcedir))
             with tempfile.NamedTemporaryFile() as tmp:
-                tmp.write(content.encode())
+                tmp.write(content.encode("utf8", errors="surrogateescape"))
                 tmp.flush()
                 try:
                     with self._sanitize_environment():
-- 
2.43.0


From a8c791fa996f5deb021a6760cc74ca271ad30e30 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:03:50 +0000
Subject: [PATCH 17/69] fix: RPMException could not be converted to string for
 some RPM error messages

---
 specfile/exceptions.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/specfile/exceptions.py b/specfile/exceptions.py
index 4915e31..949752a 100644
--- a/specfile/exceptions.py
+++ b/specfile/exceptions.py
@@ -17,10 +17,10 @@ class RPMException(SpecfileException):
 
     def __str__(self) -> str:
         for rline in self.stderr:
-            line = rline.decode().rstrip()
+            line = rline.decode(errors="replace").rstrip()
             if line.startswith("error:"):
-                return line.split("error: ")[1]
-        return "\n" + b"".join(self.stderr).decode()
+                return line[len("error:") :].lstrip()
+        return "\n" + b"".join(self.stderr).decode(errors="replace")
 
 
 class MacroRemovalException(SpecfileException):
-- 
2.43.0


From f242683f53c4e3798d926e3d1372668a99f4989f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:04:27 +0000
Subject: [PATCH 18/69] fix: tags and macro definitions could not be accessed
 in spec files not encoded in UTF-8

---
 specfile/conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 77f14ab..419e4b8 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -121,7 +121,7 @@ def process_conditions(
             continue
         try:
             expanded_line = expand(line)
-        except RPMException:
+        except (RPMException, UnicodeEncodeError):
             # ignore failed expansion and use the original line
             expanded_line = line
         m = condition_regex.match(expanded_line)
-- 
2.43.0


From 7c14ab3c8299c61f0887ebb135c2efa9b6e30fbb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:11 +0000
Subject: [PATCH 19/69] fix: %elif/%else branches following a taken branch were
 considered valid

---
 specfile/conditions.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 419e4b8..153d60d 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -112,6 +112,8 @@ def process_conditions(
     )
     result = []
     branches = [True]
+    # whether any branch of the respective condition has already been taken
+    taken = [True]
     indexed_lines = list(enumerate(lines))
     while indexed_lines:
         index, line = indexed_lines.pop(0)
@@ -132,10 +134,10 @@ def process_conditions(
         if keyword == "%endif":
             result.append((line, branches[-2]))
             branches.pop()
+            taken.pop()
         elif keyword.startswith("%el"):
             result.append((line, branches[-2]))
-            if branches[-2]:
-                branches[-1] = not branches[-1]
+            branches[-1] = branches[-2] and not taken[-1]
         else:
             result.append((line, branches[-1]))
         if keyword.startswith("%if") or keyword.startswith("%elif"):
@@ -154,6 +156,8 @@ def process_conditions(
             )
             if keyword.startswith("%el"):
                 branches[-1] = branch
+                taken[-1] = taken[-1] or branch
             else:
                 branches.append(branch)
+                taken.append(branch)
     return result
-- 
2.43.0


From abea3a7771aadcb07a56ec1d0715e527592f08ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:18 +0000
Subject: [PATCH 20/69] fix: conditions with an empty string expression were
 considered true

---
 specfile/conditions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 153d60d..66f63f4 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -47,7 +47,7 @@ def resolve_expression(
         try:
             return int(result) != 0
         except ValueError:
-            return True
+            return bool(result)
     elif keyword.endswith("arch"):
         target_cpu = expand("%{_target_cpu}")
         match = any(t for t in expand(expression).split() if t == target_cpu)
-- 
2.43.0


From cd076ccf456256c235eb424055405df6b8e3ea56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:24 +0000
Subject: [PATCH 21/69] fix: sections containing the end of a condition started
 in another section could not be parsed

---
 specfile/conditions.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/specfile/conditions.py b/specfile/conditions.py
index 66f63f4..8b8c04a 100644
--- a/specfile/conditions.py
+++ b/specfile/conditions.py
@@ -131,6 +131,10 @@ def process_conditions(
             result.append((line, branches[-1]))
             continue
         keyword = m.group("kwd")
+        if len(branches) < 2 and not keyword.startswith("%if"):
+            # the condition started outside of the given lines
+            result.append((line, branches[-1]))
+            continue
         if keyword == "%endif":
             result.append((line, branches[-2]))
             branches.pop()
-- 
2.43.0


From 3bf2ddafd21aa7cbc562856c4ac46a823876a1b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:53 +0000
Subject: [PATCH 22/69] fix: Tag.get_position() did not account for multiline
 tag values

---
 specfile/tags.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/tags.py b/specfile/tags.py
index efffa25..912633e 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -298,7 +298,7 @@ class Tag:
             Position expressed as line number (starting from 0).
         """
         return sum(
-            len(t.comments.get_raw_data()) + 1
+            len(t.comments.get_raw_data()) + len(t.value.split("\n"))
             for t in container[: container.index(self)]
         ) + len(self.comments.get_raw_data())
 
-- 
2.43.0


From 03a5cc2824985aad6acba91901c060f8ff7c1ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:05:59 +0000
Subject: [PATCH 23/69] fix: get_position() returned position of the first of
 multiple equal tags or macro definitions

---
 specfile/macro_definitions.py | 4 +++-
 specfile/tags.py              | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 4f95698..3bb3515 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -126,8 +126,10 @@ class MacroDefinition:
         Returns:
             Position expressed as line number (starting from 0).
         """
+        # compare by identity, there could be multiple equal items
+        index = [id(md) for md in container].index(id(self))
         return sum(
-            len(md.get_raw_data()) for md in container[: container.index(self)]
+            len(md.get_raw_data()) for md in container[:index]
         ) + len(self._preceding_lines)
 
     def get_raw_data(self) -> List[str]:
diff --git a/specfile/tags.py b/specfile/tags.py
index 912633e..ce122bd 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -297,9 +297,11 @@ class Tag:
         Returns:
             Position expressed as line number (starting from 0).
         """
+        # compare by identity, there could be multiple equal items
+        index = [id(t) for t in container].index(id(self))
         return sum(
             len(t.comments.get_raw_data()) + len(t.value.split("\n"))
-            for t in container[: container.index(self)]
+            for t in container[:index]
         ) + len(self.comments.get_raw_data())
 
 
-- 
2.43.0


From b3c107447e5766d5e90e92048c7a3b95e6f40310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:06:35 +0000
Subject: [PATCH 24/69] fix: add_changelog_entry() mixed up author and
 timestamp format with multiple %changelog sections

---
 specfile/specfile.py | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 889ade4..ae1923c 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -517,23 +517,25 @@ class Specfile:
                 with self.changelog(section) as changelog:
                     if changelog is None:
                         return
-                    evr = self.expand(evr, extra_macros=[("dist", "")])
+                    expanded_evr = self.expand(evr, extra_macros=[("dist", "")])
                     if isinstance(entry, str):
                         entry = [entry]
-                    if timestamp is None:
+                    entry_timestamp = timestamp
+                    if entry_timestamp is None:
                         # honor the timestamp format, but default to date-only
                         if changelog and changelog[-1].extended_timestamp:
-                            timestamp = datetime.datetime.now().astimezone()
+                            entry_timestamp = datetime.datetime.now().astimezone()
                         else:
-                            timestamp = datetime.datetime.now(
+                            entry_timestamp = datetime.datetime.now(
                                 datetime.timezone.utc
                             ).date()
-                    if author is None:
-                        author = guess_packager()
-                        if not author:
+                    entry_author = author
+                    if entry_author is None:
+                        entry_author = guess_packager()
+                        if not entry_author:
                             raise SpecfileException("Failed to auto-detect author")
                     elif email is not None:
-                        author += f" <{email}>"
+                        entry_author += f" <{email}>"
                     if changelog:
                         # try to preserve padding of day of month
                         padding = max(
@@ -544,10 +546,10 @@ class Specfile:
                         padding = "0"
                     changelog.append(
                         ChangelogEntry.assemble(
-                            timestamp,
-                            author,
+                            entry_timestamp,
+                            entry_author,
                             entry,
-                            evr,
+                            expanded_evr,
                             day_of_month_padding=padding,
                             append_newline=bool(changelog),
                         )
-- 
2.43.0


From 1addbb74a8dce993319011de95d7e1fe4b173f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:07:25 +0000
Subject: [PATCH 25/69] fix: equal EVR/NEVR/NEVRA objects could have different
 hashes

---
 specfile/utils.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/specfile/utils.py b/specfile/utils.py
index 4ab2368..5d16242 100644
--- a/specfile/utils.py
+++ b/specfile/utils.py
@@ -24,8 +24,15 @@ class EVR(collections.abc.Hashable):
         self.version = version
         self.release = release
 
+    @staticmethod
+    def _normalize(string: str) -> tuple:
+        # equal results for strings that are equal according to rpmvercmp()
+        segments = re.findall(r"~|\^|[0-9]+|[a-zA-Z]+", string)
+        return tuple(s.lstrip("0") for s in segments)
+
     def _key(self) -> tuple:
-        return self.epoch, self.version, self.release
+        _, version, release = self._rpm_evr_tuple()
+        return self.epoch, self._normalize(version), self._normalize(release)
 
     def __hash__(self) -> int:
         return hash(self._key())
@@ -96,7 +103,7 @@ class NEVR(EVR):
         super().__init__(epoch=epoch, version=version, release=release)
 
     def _key(self) -> tuple:
-        return self.name, self.epoch, self.version, self.release
+        return (self.name,) + super()._key()
 
     def __hash__(self) -> int:
         return hash(self._key())
@@ -173,7 +180,7 @@ class NEVRA(NEVR):
         super().__init__(name=name, epoch=epoch, version=version, release=release)
 
     def _key(self) -> tuple:
-        return self.name, self.epoch, self.version, self.release, self.arch
+        return super()._key() + (self.arch,)
 
     def __hash__(self) -> int:
         return hash(self._key())
-- 
2.43.0


From 4f3525a948c26f235ebe21a6fbcf9d0a68699ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:08:26 +0000
Subject: [PATCH 26/69] fix: option values with backslashes or with whitespace
 or quotes inside macros were not rendered properly

---
 specfile/options.py | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/specfile/options.py b/specfile/options.py
index e579113..d5749e4 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -7,7 +7,7 @@ import string
 from enum import Enum, auto
 from typing import Dict, Iterable, Iterator, List, Optional, Tuple, Union, overload
 
-from specfile.exceptions import OptionsException
+from specfile.exceptions import OptionsException, UnterminatedMacroException
 from specfile.formatter import formatted
 from specfile.value_parser import StringLiteral, ValueParser
 
@@ -36,19 +36,32 @@ class Token(collections.abc.Hashable):
     def __repr__(self) -> str:
         return f"Token({self.type!r}, {self.value!r})"
 
+    def _escape(self, pattern: str) -> str:
+        # macros are not subject to tokenization, escape only string literals
+        try:
+            nodes = ValueParser.parse(self.value)
+        except UnterminatedMacroException:
+            nodes = [StringLiteral(self.value)]
+        return "".join(
+            (
+                re.sub(pattern, r"\\\g<0>", str(node))
+                if isinstance(node, StringLiteral)
+                else str(node)
+            )
+            for node in nodes
+        )
+
     def __str__(self) -> str:
         if self.type == TokenType.WHITESPACE:
             return self.value
         elif self.type == TokenType.QUOTED:
             # escape single quotes
-            value = self.value.replace("'", r"\'")
-            return f"'{value}'"
+            return f"'{self._escape(chr(39))}'"
         elif self.type == TokenType.DOUBLE_QUOTED:
             # escape double quotes
-            value = self.value.replace('"', r"\"")
-            return f'"{value}"'
-        # escape quotes and whitespace
-        return re.sub(r"['\"\s]", r"\\\g<0>", self.value)
+            return f'"{self._escape(chr(34))}"'
+        # escape backslashes, quotes and whitespace
+        return self._escape(r"[\\'\"\s]")
 
     def _key(self) -> tuple:
         return self.type, self.value
-- 
2.43.0


From 971deef0ad8ab8e875e41631d457f1712fceb6ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:43 +0000
Subject: [PATCH 27/69] fix: deleting an option without an argument removed
 only the preceding whitespace

---
 specfile/options.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/specfile/options.py b/specfile/options.py
index d5749e4..ccfcca9 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -409,19 +409,17 @@ class Options(collections.abc.MutableMapping):
         i, j = self._find_option(name)
         if i is None:
             return
+        if j is None:
+            j = i
         if i == 0:
             if (
-                j is not None
-                and j + 1 < len(self._tokens)
+                j + 1 < len(self._tokens)
                 and self._tokens[j + 1].type == TokenType.WHITESPACE
             ):
                 j += 1
         elif self._tokens[i - 1].type == TokenType.WHITESPACE:
             i -= 1
-        if j is not None and j > i:
-            del self._tokens[i : j + 1]
-        else:
-            del self._tokens[i]
+        del self._tokens[i : j + 1]
 
     def __len__(self) -> int:
         return len(
-- 
2.43.0


From 864624b82fd5bb9c9891696fd6934667a535823b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:49 +0000
Subject: [PATCH 28/69] fix: setting an already present flag to True corrupted
 it

---
 specfile/options.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/specfile/options.py b/specfile/options.py
index ccfcca9..9a62c36 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -385,6 +385,9 @@ class Options(collections.abc.MutableMapping):
             return
         if value is None or value is False:
             return delattr(self, name)
+        if value is True:
+            # the flag is already present
+            return
         if j is not None and j > i:
             if self._needs_quoting(value):
                 if self._tokens[j].type not in (
-- 
2.43.0


From 98748f3f27148a8953ee7ed7e7ad3d8201e87559 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:09:55 +0000
Subject: [PATCH 29/69] fix: positional argument inserted at the beginning was
 not separated from the rest

---
 specfile/options.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specfile/options.py b/specfile/options.py
index 9a62c36..3ea9aeb 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -218,6 +218,8 @@ class Positionals(collections.abc.MutableSequence):
         )
         if index > 0:
             self._options._tokens.insert(index, Token(TokenType.WHITESPACE, " "))
+        elif len(self._options._tokens) > 1:
+            self._options._tokens.insert(1, Token(TokenType.WHITESPACE, " "))
 
 
 class Options(collections.abc.MutableMapping):
-- 
2.43.0


From 21811d64b1efcb1262cca74939640adab1a281cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:02 +0000
Subject: [PATCH 30/69] fix: deleting an option specified multiple times only
 removed its last occurrence

---
 specfile/options.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specfile/options.py b/specfile/options.py
index 3ea9aeb..02e7446 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -425,6 +425,8 @@ class Options(collections.abc.MutableMapping):
         elif self._tokens[i - 1].type == TokenType.WHITESPACE:
             i -= 1
         del self._tokens[i : j + 1]
+        # delete also preceding occurrences of the option, if any
+        delattr(self, name)
 
     def __len__(self) -> int:
         return len(
-- 
2.43.0


From 783ffebb34d10b83d77e252ed0eb345e317108d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:38 +0000
Subject: [PATCH 31/69] fix: sections with trailing whitespace in the header
 could not be looked up

---
 specfile/sections.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index 372dd7c..5bb2b98 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -116,11 +116,14 @@ class Section(collections.UserList):
 
     @property
     def normalized_id(self) -> str:
-        """Normalized ID of the section. All characters of name are lowercased."""
+        """
+        Normalized ID of the section. All characters of name are lowercased,
+        trailing whitespace is removed.
+        """
         # ensure delimiter is not empty when there are any options
         if self.options and not self._delimiter:
             self._delimiter = " "
-        return self.normalized_name + self._delimiter + str(self.options)
+        return (self.normalized_name + self._delimiter + str(self.options)).rstrip()
 
     @property
     def is_script(self) -> bool:
-- 
2.43.0


From 25c7908d5b12eaba75e4702388e42896028ceef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:10:44 +0000
Subject: [PATCH 32/69] fix: sections with uppercase characters in options
 could not be looked up

---
 specfile/sections.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index 5bb2b98..cdef0d4 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -27,6 +27,11 @@ if TYPE_CHECKING:
 PREAMBLE = "package"
 
 
+def normalize_id(id: str) -> str:
+    """Normalizes section ID. All characters of name are lowercased."""
+    return re.sub(r"^\S+", lambda m: m.group(0).lower(), id)
+
+
 class Section(collections.UserList):
     """
     Class that represents a spec file section.
@@ -178,7 +183,7 @@ class Sections(UserList[Section]):
             data = super().__getattribute__("data")
         except AttributeError:
             return False
-        return any(s.normalized_id == cast(str, id).lower() for s in data)
+        return any(s.normalized_id == normalize_id(cast(str, id)) for s in data)
 
     def __getattr__(self, id: str) -> Section:
         if id not in self:
@@ -215,7 +220,7 @@ class Sections(UserList[Section]):
 
     def find(self, id: str) -> int:
         for i, section in enumerate(self.data):
-            if section.normalized_id == id.lower():
+            if section.normalized_id == normalize_id(id):
                 return i
         raise ValueError
 
-- 
2.43.0


From cca68abea8e23ce100b305b48c29e1395ba7d146 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:05 +0000
Subject: [PATCH 33/69] fix: delimiter was missing in headers of new sections
 with positional arguments only

---
 specfile/sections.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index cdef0d4..d10de7b 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -115,7 +115,7 @@ class Section(collections.UserList):
     def id(self) -> str:
         """ID of the section (name and options, without the leading '%')."""
         # ensure delimiter is not empty when there are any options
-        if self.options and not self._delimiter:
+        if str(self.options) and not self._delimiter:
             self._delimiter = " "
         return self.name + self._delimiter + str(self.options)
 
@@ -126,7 +126,7 @@ class Section(collections.UserList):
         trailing whitespace is removed.
         """
         # ensure delimiter is not empty when there are any options
-        if self.options and not self._delimiter:
+        if str(self.options) and not self._delimiter:
             self._delimiter = " "
         return (self.normalized_name + self._delimiter + str(self.options)).rstrip()
 
-- 
2.43.0


From d1a2ac7573a3eb4d02fb4d3f2697c408f7ae5f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:11:27 +0000
Subject: [PATCH 34/69] fix: trailing whitespace was duplicated on lines of
 multiline tag values

---
 specfile/tags.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/specfile/tags.py b/specfile/tags.py
index ce122bd..c55c3df 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -523,6 +523,7 @@ class Tags(UserList[Tag]):
                     while (bc > 0 or pc > 0) and lines:
                         value += ws
                         line, _ = pop(lines)
+                        ws = ""
                         tokens = re.split(r"([^\S\n]+)$", line, maxsplit=1)
                         if len(tokens) > 1:
                             line, ws, _ = tokens
-- 
2.43.0


From 4af47d76415365f43a174ff7ca46bb50bf23f06e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:13 +0000
Subject: [PATCH 35/69] fix: dummy sources were left behind if creating another
 one failed

---
 specfile/spec_parser.py | 61 +++++++++++++++++++++++------------------
 1 file changed, 34 insertions(+), 27 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 94e855f..62fe658 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -134,36 +134,43 @@ class SpecParser:
             (".gz", b"\x1f\x8b"),
             (".7z", b"7z\xbc\xaf\x27\x1c"),
         ]
+        def exists(path):
+            try:
+                return path.exists()
+            except OSError:
+                # e.g. the filename is too long, let the write fail
+                return False
+
         dummy_sources = []
-        for source in sources:
-            filename = get_filename_from_location(source)
-            if not filename:
-                continue
-            path = self.sourcedir / filename
-            if path.exists():
-                continue
-            for ext, magic in SIGNATURES:
-                if filename.endswith(ext):
-                    if write_magic(path, magic):
+        try:
+            for source in sources:
+                filename = get_filename_from_location(source)
+                if not filename:
+                    continue
+                path = self.sourcedir / filename
+                if exists(path):
+                    continue
+                for ext, magic in SIGNATURES:
+                    if filename.endswith(ext):
+                        if write_magic(path, magic):
+                            dummy_sources.append(path)
+                        break
+                else:
+                    if write_magic(path, None):
                         dummy_sources.append(path)
-                    break
-            else:
-                if write_magic(path, None):
+            for source in non_empty_sources:
+                filename = get_filename_from_location(source)
+                if not filename:
+                    continue
+                path = self.sourcedir / filename
+                if exists(path):
+                    continue
+                try:
+                    path.write_text("DUMMY")
+                except (FileNotFoundError, OSError, PermissionError):
+                    logger.warning(f"Failed to create a dummy source: {path}")
+                else:
                     dummy_sources.append(path)
-        for source in non_empty_sources:
-            filename = get_filename_from_location(source)
-            if not filename:
-                continue
-            path = self.sourcedir / filename
-            if path.exists():
-                continue
-            try:
-                path.write_text("DUMMY")
-            except (FileNotFoundError, OSError, PermissionError):
-                logger.warning(f"Failed to create a dummy source: {path}")
-            else:
-                dummy_sources.append(path)
-        try:
             yield dummy_sources
         finally:
             for path in dummy_sources:
-- 
2.43.0


From 4a0d56bb2565c268d171c03ffb3bb3aa68b6b803 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:12:20 +0000
Subject: [PATCH 36/69] fix: dangling symlinks in sourcedir were removed and
 their targets left behind

---
 specfile/spec_parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 62fe658..533d5cb 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -174,7 +174,8 @@ class SpecParser:
             yield dummy_sources
         finally:
             for path in dummy_sources:
-                path.unlink()
+                # do not remove symlinks, only their targets created above
+                path.resolve().unlink()
 
     @contextlib.contextmanager
     def _sanitize_environment(self) -> Generator[os._Environ, None, None]:
-- 
2.43.0


From 3396795fb98ae304c397e34e1e6785ccf61b2fdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:14 +0000
Subject: [PATCH 37/69] fix: forced parsing failed with OSError on files
 included from nonexistent directories

---
 specfile/spec_parser.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 533d5cb..ecd6fff 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -242,6 +242,12 @@ class SpecParser:
                 except ValueError as e:
                     raise RPMException(stderr=stderr) from e
 
+        def is_in_sourcedir(path):
+            try:
+                return path.parent.samefile(self.sourcedir)
+            except OSError:
+                return False
+
         def collect_sources_referenced_from_tags(content):
             # collect sources referenced from shell expansions in tag values
             sources = set()
@@ -264,7 +270,7 @@ class SpecParser:
                     # even though it failed, populated the macro context
                     source = Path(Macros.expand(ref))
                     # ignore files outside of sourcedir
-                    if source.parent.samefile(self.sourcedir):
+                    if is_in_sourcedir(source):
                         sources.add(source.name)
             return sources
 
@@ -286,7 +292,7 @@ class SpecParser:
                 # even though it failed, populated the macro context
                 source = Path(Macros.expand(arg))
                 # ignore files outside of sourcedir
-                if source.parent.samefile(self.sourcedir):
+                if is_in_sourcedir(source):
                     sources.add(source.name)
             return sources
 
@@ -299,7 +305,7 @@ class SpecParser:
                     # even though it failed, populated the macro context
                     source = Path(Macros.expand(node.body))
                     # ignore files outside of sourcedir
-                    if source.parent.samefile(self.sourcedir):
+                    if is_in_sourcedir(source):
                         sources.add(source.name)
             return sources
 
-- 
2.43.0


From e8b294b809d7db9617eb967ae93bf93936c0039c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:21 +0000
Subject: [PATCH 38/69] fix: forced parsing failed with
 UnterminatedMacroException instead of RPMException

---
 specfile/spec_parser.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index ecd6fff..fbb7b04 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -15,7 +15,7 @@ from typing import Any, Dict, Generator, List, Optional, Set, Tuple
 import rpm
 
 from specfile.context_management import capture_stderr
-from specfile.exceptions import RPMException
+from specfile.exceptions import RPMException, UnterminatedMacroException
 from specfile.formatter import formatted
 from specfile.macros import Macros
 from specfile.sections import Section
@@ -261,7 +261,11 @@ class SpecParser:
                     # break parsing, we can skip this tag
                     continue
                 refs = []
-                for node in ValueParser.flatten(ValueParser.parse(tag.value)):
+                try:
+                    nodes = ValueParser.parse(tag.value)
+                except UnterminatedMacroException:
+                    continue
+                for node in ValueParser.flatten(nodes):
                     if isinstance(node, ShellExpansion):
                         for m in source_ref_regex.finditer(node.body):
                             refs.append(m.group(0))
@@ -299,7 +303,11 @@ class SpecParser:
         def collect_loaded_sources(content):
             # collect sources loaded using %{load:...}
             sources = set()
-            for node in ValueParser.flatten(ValueParser.parse(content)):
+            try:
+                nodes = ValueParser.parse(content)
+            except UnterminatedMacroException:
+                return sources
+            for node in ValueParser.flatten(nodes):
                 if isinstance(node, BuiltinMacro) and node.name == "load":
                     # we can expand macros here because the first non-build parse,
                     # even though it failed, populated the macro context
-- 
2.43.0


From 72b38d557dc0b46a19ded4b3a426a707159126a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:26 +0000
Subject: [PATCH 39/69] fix: forced parsing failed if a missing included file
 was not a source

---
 specfile/spec_parser.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index fbb7b04..84d952a 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -349,8 +349,10 @@ class SpecParser:
                         content, rpm.RPMSPEC_ANYARCH | rpm.RPMSPEC_FORCE
                     )
                     # spec.sources contains also previously collected
-                    # non empty sources (if any), remove them
-                    sources = {s for s, _, _ in spec.sources} - non_empty_sources
+                    # non empty sources (if any), remove them; included and loaded files
+                    # that are not sources have to be added though
+                    sources |= {s for s, _, _ in spec.sources}
+                    sources -= non_empty_sources
 
         # workaround RPM lua tables feature/bug
         #
-- 
2.43.0


From a65142c1c1028c3fd2abcb04f4965d769128631e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:13:55 +0000
Subject: [PATCH 40/69] fix: forced parsing failed with IndexError on %include
 with a backslash at the end of the spec file

---
 specfile/spec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 84d952a..8322aa4 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -289,7 +289,7 @@ class SpecParser:
                 if not m:
                     continue
                 arg = m.group(1)
-                while line.endswith("\\"):
+                while line.endswith("\\") and lines:
                     line = lines.pop(0)
                     arg = arg[:-1] + line
                 # we can expand macros here because the first non-build parse,
-- 
2.43.0


From cae65ea180438baa10ba9008b07e2744fcdf623c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:02 +0000
Subject: [PATCH 41/69] fix: Changelog.filter() failed with TypeError on
 entries without EVR

---
 specfile/changelog.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 83266ca..c214450 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -280,7 +280,8 @@ class Changelog(UserList[ChangelogEntry]):
 
         def parse_evr(s):
             try:
-                return EVR.from_string(s)
+                # entries without EVR are treated the same as those with an invalid one
+                return EVR.from_string(s or "")
             except SpecfileException:
                 return EVR(version="0")
 
-- 
2.43.0


From 159b681fe963734449b07e45055818dbb8e7346b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:14:59 +0000
Subject: [PATCH 42/69] fix: parsing could be skipped for a deep copy of a
 Specfile instance

---
 specfile/spec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 8322aa4..025e59b 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -400,7 +400,7 @@ class SpecParser:
         parse_hash = hashlib.sha256(
             pickle.dumps(payload, protocol=pickle.HIGHEST_PROTOCOL)
         ).digest()
-        if parse_hash == SpecParser._last_parse_hash:
+        if parse_hash == SpecParser._last_parse_hash and self.spec is not None:
             # none of the input parameters has changed, no need to parse again
             return
         if self.spec:
-- 
2.43.0


From 9e33c219a1cab27ef786e9e756e967e70c380a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:15:32 +0000
Subject: [PATCH 43/69] fix: Specfile was unusable after parsing failed with a
 different exception than RPMException

---
 specfile/spec_parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 025e59b..e6398a1 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -414,7 +414,7 @@ class SpecParser:
                 raise
             else:
                 SpecParser._last_parse_hash = parse_hash
-        except RPMException:
+        except Exception:
             self.spec = None
             self.tainted = False
             raise
-- 
2.43.0


From ea20bc027c130300446ffaaa8d89652c2953f5ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:33 +0000
Subject: [PATCH 44/69] fix: appended tags could become part of a condition
 block

---
 specfile/tags.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/specfile/tags.py b/specfile/tags.py
index c55c3df..82296e9 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -478,6 +478,13 @@ class Tags(UserList[Tag]):
             item.comments._preceding_lines[0:0] = lines[: index + 1]
             del lines[: index + 1]
 
+    def append(self, item: Tag) -> None:
+        self.insert(len(self.data), item)
+
+    def extend(self, other: Iterable[Tag]) -> None:
+        for item in other:
+            self.append(item)
+
     @classmethod
     def parse(cls, section: Section, context: Optional["Specfile"] = None) -> "Tags":
         """
-- 
2.43.0


From b27578d4506c602a574cc543f21122fda33e901d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:16:38 +0000
Subject: [PATCH 45/69] fix: inserted tags could become part of an outer
 condition block

---
 specfile/tags.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/specfile/tags.py b/specfile/tags.py
index 82296e9..8dd78d4 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -471,9 +471,16 @@ class Tags(UserList[Tag]):
             lines = self._remainder
         self.data.insert(i, item)
         # do not make the new tag part of a condition block (in case there is one)
-        index = next(
-            (i for i, line in enumerate(lines) if line.startswith("%endif")), -1
-        )
+        # or of multiple nested ones
+        index, depth = -1, 0
+        for i, line in enumerate(lines):
+            if line.lstrip().startswith("%endif"):
+                if depth <= 0:
+                    index = i
+                else:
+                    depth -= 1
+            elif line.lstrip().startswith("%if"):
+                depth += 1
         if index >= 0:
             item.comments._preceding_lines[0:0] = lines[: index + 1]
             del lines[: index + 1]
-- 
2.43.0


From c24e1bea754f1863e19f96e485964139724c1d6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:59:32 +0000
Subject: [PATCH 46/69] fix: trailing whitespace on the first line of a
 multiline macro definition was moved to its end

---
 specfile/macro_definitions.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 3bb3515..e169cdc 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -333,15 +333,15 @@ class MacroDefinitions(UserList[MacroDefinition]):
                 escaped = len(sc) > 1 and sc[-2:] == "%%"
                 hashed = sc and sc[-1] == "#"
                 if not dnl and not escaped and not hashed:
-                    if ws3 == "\\":
-                        body += ws3
-                        ws3 = ""
+                    # whitespace in the middle of multiline body has to stay there
+                    body += ws3
+                    ws3 = ""
                     bc, pc = count_brackets(body)
                     while (bc > 0 or pc > 0 or body.endswith("\\")) and lines:
                         line, _ = pop(lines)
                         body += "\n" + line
                         bc, pc = count_brackets(body)
-                tokens = re.split(r"([^\S\n]+)$", body, maxsplit=1)
+                tokens = re.split(r"([^\S\n]+)\Z", body, maxsplit=1)
                 if len(tokens) == 1:
                     body = tokens[0]
                 else:
-- 
2.43.0


From c06a5c742d6be93776ca0fd1221ff422ebdd45b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:07:21 +0000
Subject: [PATCH 47/69] fix: keep %dnl of a macro definition that is also
 commented out otherwise

---
 specfile/macro_definitions.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index e169cdc..00d77dc 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -358,7 +358,7 @@ class MacroDefinitions(UserList[MacroDefinition]):
                             if hashed
                             else (
                                 CommentOutStyle.OTHER
-                                if escaped and "#" in sc
+                                if not dnl and escaped and "#" in sc
                                 else CommentOutStyle.DNL
                             )
                         ),
-- 
2.43.0


From af16ced3544db73c5536e69679514dad350917ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:12:47 +0000
Subject: [PATCH 48/69] fix: start new content of a section with inline content
 on its own line

---
 specfile/sections.py | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/specfile/sections.py b/specfile/sections.py
index d10de7b..8697d41 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -76,18 +76,26 @@ class Section(collections.UserList):
         self._separator = separator
         if data is not None:
             self.data = data.copy()
+        # content on the same line as the section header, if any
+        self._inline_content = self.data[:1] if separator != "\n" else []
+
+    def _get_separator(self, data: List[str]) -> str:
+        # anything but the original content has to start on its own line
+        if data and data[:1] == self._inline_content:
+            return self._separator
+        return "\n"
 
     def __str__(self) -> str:
         data = "".join(f"{i}\n" for i in self.data)
         if self.normalized_id == PREAMBLE:
             return data
-        return f"%{self.id}{self._separator}{data}"
+        return f"%{self.id}{self._get_separator(self.data)}{data}"
 
     @formatted
     def __repr__(self) -> str:
         return (
             f"Section({self.name!r}, {self.options!r}, {self._delimiter!r}, "
-            f"{self._separator!r}, {self.data!r})"
+            f"{self._get_separator(self.data)!r}, {self.data!r})"
         )
 
     @overload
@@ -100,8 +108,13 @@ class Section(collections.UserList):
 
     def __getitem__(self, i):
         if isinstance(i, slice):
+            data = self.data[i]
             return Section(
-                self.name, self.options, self._delimiter, self._separator, self.data[i]
+                self.name,
+                self.options,
+                self._delimiter,
+                self._get_separator(data),
+                data,
             )
         else:
             return self.data[i]
-- 
2.43.0


From 3c4a05df5f6eb5335e634a0bf656cc77c877ccf1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:07 +0000
Subject: [PATCH 49/69] fix: keep the colon when adjusting separator of a new
 source tag

---
 specfile/sources.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specfile/sources.py b/specfile/sources.py
index b5f54c5..0465bb9 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -445,7 +445,8 @@ class Sources(collections.abc.MutableSequence):
         diff = len(reference._tag.name) - len(name)
         if diff >= 0:
             return name, reference._tag._separator + " " * diff
-        return name, reference._tag._separator[:diff] or ":"
+        before, colon, after = reference._tag._separator.partition(":")
+        return name, before + colon + after[:diff]
 
     def _get_initial_tag_setup(self, number: int = 0) -> Tuple[int, str, str]:
         """
-- 
2.43.0


From b4b4b6c820763b43731c370164f113848e284fe7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 09:38:15 +0000
Subject: [PATCH 50/69] fix: renumber followers of a source inserted at a
 negative index

---
 specfile/sources.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specfile/sources.py b/specfile/sources.py
index 0465bb9..7921a27 100644
--- a/specfile/sources.py
+++ b/specfile/sources.py
@@ -519,6 +519,8 @@ class Sources(collections.abc.MutableSequence):
         if not self._allow_duplicates and location in self:
             raise DuplicateSourceException(f"{self.prefix} '{location}' already exists")
         items = self._get_items()
+        if i < 0:
+            i = max(i + len(items), 0)
         if i > len(items):
             i = len(items)
         if items:
-- 
2.43.0


From bdc03d2a15c632e50b4c8d64827715efb5b22040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:44 +0000
Subject: [PATCH 51/69] fix: extended timestamp with zero-padded day of month
 was not recognized

---
 specfile/changelog.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index c214450..543a34a 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -114,7 +114,7 @@ class ChangelogEntry:
             [ ]
             ({months})       # month
             [ ]+
-            ([12]?\d|3[01])  # day of month
+            ([0-2]?\d|3[01]) # possibly zero-padded day of month
             [ ]
             ([01]\d|2[0-3])  # hour
             :
-- 
2.43.0


From 1e02a09bb101e5e7945b4929ccf677de7f44870e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:06:57 +0000
Subject: [PATCH 52/69] fix: NEVRA parsed from a string without release had no
 release to compare

---
 specfile/utils.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/specfile/utils.py b/specfile/utils.py
index 5d16242..7ee86e8 100644
--- a/specfile/utils.py
+++ b/specfile/utils.py
@@ -246,7 +246,9 @@ class NEVRA(NEVR):
         if not m:
             raise SpecfileException("Invalid NEVRA string.")
         n, e, v, r, a = m.groups()
-        return cls(name=n, epoch=int(e) if e else 0, version=v, release=r, arch=a)
+        return cls(
+            name=n, epoch=int(e) if e else 0, version=v, release=r or "", arch=a
+        )
 
 
 def get_filename_from_location(location: str) -> str:
-- 
2.43.0


From a0b6766759a14a13097a7819fc4f09bc445ec2c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:51 +0000
Subject: [PATCH 53/69] fix: recognize %prep macros behind escaped or longer
 macro names

%%patch1 is not a macro invocation, and a name that merely starts like
a %prep macro (e.g. %patches) must not hide a macro later on the line.
---
 specfile/prep.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/specfile/prep.py b/specfile/prep.py
index f5dadd2..86cefdc 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -362,7 +362,8 @@ class Prep(collections.abc.Container):
             New instance of `Prep` class.
         """
         macro_regex = re.compile(
-            r"(?P<m>%(setup|patch\d*|autopatch|autosetup))(?P<d>\s*)(?P<o>.*?)$"
+            r"(?<!%)(%%)*(?P<m>%(setup|patch\d*|autopatch|autosetup))(?!\S)"
+            r"(?P<d>\s*)(?P<o>.*?)$"
         )
         data = []
         buffer: List[str] = []
-- 
2.43.0


From 2e60e05898421af22c2cdc99a3a1627f48df5236 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:49:59 +0000
Subject: [PATCH 54/69] fix: do not share contexts of distinct sections with
 equal content

Context manager arguments were compared by their pickled value, so views
of two different sections with the same content were considered the same
and edits made in one of them were written to the other.
---
 specfile/context_management.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/specfile/context_management.py b/specfile/context_management.py
index 0f8a3a4..590ab14 100644
--- a/specfile/context_management.py
+++ b/specfile/context_management.py
@@ -106,11 +106,16 @@ class ContextManager:
         return types.MethodType(self, obj)
 
     def __call__(self, *args: Any, **kwargs: Any) -> GeneratorContextManager:
+        def identify(arg):
+            # objects that are equal are not necessarily the same
+            if isinstance(arg, (type(None), bool, int, str)):
+                return arg
+            return type(arg), id(arg)
+
         # serialize the passed arguments
-        payload = list(args) + sorted(kwargs.items())
-        if payload and self.is_bound:
-            # do not attempt to pickle self/cls
-            payload[0] = (type(payload[0]), id(payload[0]))
+        payload = [identify(a) for a in args] + sorted(
+            (k, identify(v)) for k, v in kwargs.items()
+        )
         key = pickle.dumps(payload, protocol=pickle.HIGHEST_PROTOCOL)
         if (
             key in self.generators
-- 
2.43.0


From 93422c4469f0ba2a6a3874653751d0d5253fffb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:06 +0000
Subject: [PATCH 55/69] fix: match conditional macro expansions that stay as
 they are by what they expand to

---
 specfile/value_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index ebafef1..e18d835 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -385,7 +385,7 @@ class ValueParser:
                         result.extend(flatten(node.body))
                         result.append("}")
                     else:
-                        result.append(str(node))
+                        result.append(node)
                 else:
                     result.append(node)
             return result
@@ -402,6 +402,10 @@ class ValueParser:
             elif isinstance(node, (ShellExpansion, ExpressionExpansion, BuiltinMacro)):
                 const = expand(str(node))
                 tokens.append(("c", const, str(node)))
+            elif isinstance(node, ConditionalMacroExpansion):
+                # this one stays as it is unless it depends on a flipped entity
+                const = "" if node.name in entities_to_flip else expand(str(node))
+                tokens.append(("c", const, str(node)))
             elif isinstance(node, MacroSubstitution):
                 if node.prefix.count("!") % 2 == 0 and node.name in modifiable_entities:
                     tokens.append(("g", node.name, str(node)))
-- 
2.43.0


From bd18aa07f2febdbdcdf84d8b7fa8902a92f7256b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:13 +0000
Subject: [PATCH 56/69] fix: do not tear apart macros in the value requested
 from update_value()

---
 specfile/specfile.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index ae1923c..ccc56f7 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -852,6 +852,12 @@ class Specfile:
                 if not m:
                     continue
                 d = m.groupdict()
+                try:
+                    for val in d.values():
+                        ValueParser.parse(val)
+                except UnterminatedMacroException:
+                    # avoid tearing apart macros in the requested value
+                    return requested_value
                 for grp, val in d.items():
                     if grp.startswith(SUBSTITUTION_GROUP_PREFIX):
                         continue
-- 
2.43.0


From 8574f4b60c257d5523a2c86604d3422afa6a323c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:22 +0000
Subject: [PATCH 57/69] fix: do not bump a release macro that is commented out
 or not valid

---
 specfile/specfile.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index ccc56f7..552806c 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -1042,6 +1042,8 @@ class Specfile:
 
         with self.macro_definitions() as macro_definitions:
             for md in macro_definitions:
+                if not md.valid or md.commented_out:
+                    continue
                 if md.name.lower() in ["release", "baserelease"]:
                     md.body = self._bump_release_string(md.body)
                     return
-- 
2.43.0


From 86d22e7746b7c4bd3fc70137ce3eb2e8bd33e2f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 11:52:29 +0000
Subject: [PATCH 58/69] fix: make sure that a tag updated with update_tag()
 expands to the requested value

---
 specfile/specfile.py | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index 552806c..e5a0314 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -1,6 +1,7 @@
 # Copyright Contributors to the Packit project.
 # SPDX-License-Identifier: MIT
 
+import contextlib
 import datetime
 import logging
 import re
@@ -14,6 +15,7 @@ import rpm
 from specfile.changelog import Changelog, ChangelogEntry, guess_packager
 from specfile.context_management import ContextManager
 from specfile.exceptions import (
+    RPMException,
     SourceNumberException,
     SpecfileException,
     UnterminatedMacroException,
@@ -938,6 +940,12 @@ class Specfile:
         )
         with self.tags() as tags:
             getattr(tags, name).value = updated_value
+        # the changes can interfere with each other,
+        # fall back to the requested value in such case
+        with contextlib.suppress(RPMException):
+            if self.expand(updated_value) != self.expand(value):
+                with self.tags() as tags:
+                    getattr(tags, name).value = value
 
     def update_version(
         self,
-- 
2.43.0


From 9a04b27ac1863f7fb2ff0a5485b43534b55ce59d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:56:17 +0000
Subject: [PATCH 59/69] fix: guessing the packager failed for users without a
 passwd entry

---
 specfile/changelog.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 543a34a..f1d91a3 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -366,8 +366,15 @@ class Changelog(UserList[ChangelogEntry]):
 
 
 def _getent_name() -> str:
-    username = getpass.getuser()
-    pwd_struct = pwd.getpwnam(username)
+    try:
+        username = getpass.getuser()
+    except (KeyError, OSError):
+        # there is no name associated with the current user ID
+        return ""
+    try:
+        pwd_struct = pwd.getpwnam(username)
+    except KeyError:
+        return username
     # Use the plain username if the name field is empty
     return pwd_struct.pw_gecos or username
 
-- 
2.43.0


From 7c881651086742a7bda94db2cd4c884521a645da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:02:39 +0000
Subject: [PATCH 60/69] fix: macros with empty body were missing in the dump

---
 specfile/macros.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/specfile/macros.py b/specfile/macros.py
index f3bf952..3381f2c 100644
--- a/specfile/macros.py
+++ b/specfile/macros.py
@@ -88,7 +88,7 @@ class Macros:
         # last line contains only summary
         dump.pop()
         macro_regex = re.compile(
-            r"^\s*(?P<l>-?\d+)(?P<u>=|:) (?P<n>\w+)(?P<o>\(.+?\))?\t(?P<b>.*)$"
+            r"^\s*(?P<l>-?\d+)(?P<u>=|:) (?P<n>\w+)(?P<o>\(.+?\))?(?:\t(?P<b>.*))?$"
         )
         result = []
         while dump:
@@ -104,7 +104,7 @@ class Macros:
                     Macro(
                         m.group("n"),
                         m.group("o"),
-                        m.group("b"),
+                        m.group("b") or "",
                         MacroLevel(int(m.group("l"))),
                         m.group("u") == "=",
                     )
-- 
2.43.0


From 678fbf82b4f2c627a09aff204210e147b42e3b05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:13 +0000
Subject: [PATCH 61/69] fix: deleting an instance destroyed lua tables that a
 skipped parse relied on

---
 specfile/spec_parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index e6398a1..97b89b3 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -62,6 +62,11 @@ class SpecParser:
         # improperly skipped
         SpecParser._last_parse_hash = None
 
+    def __del__(self) -> None:
+        # explicitly invalidate the global parse hash, deleting a `rpm.spec` instance
+        # destroys lua tables even if they belong to a different instance
+        SpecParser._last_parse_hash = None
+
     def __eq__(self, other: object) -> bool:
         if not isinstance(other, SpecParser):
             return NotImplemented
-- 
2.43.0


From 21281313b8c16bc9a77f54407b6bbce420508ba5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:18 +0000
Subject: [PATCH 62/69] fix: dummy sources were left behind or failed parsing
 when writing or removing them failed

---
 specfile/spec_parser.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 97b89b3..6d42ffe 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -125,9 +125,17 @@ class SpecParser:
                     path.write_bytes(MAGIC_LENGTH * b"\x00")
             except (FileNotFoundError, OSError, PermissionError):
                 logger.warning(f"Failed to create a dummy source: {path}")
+                discard(path)
                 return False
             return True
 
+        def discard(path):
+            # the file may have been created even if writing to it failed,
+            # and it may have been removed by someone else in the meantime
+            with contextlib.suppress(OSError, RuntimeError):
+                # do not remove symlinks, only their targets
+                path.resolve().unlink()
+
         # based on rpmFileIsCompressed() in rpmio/rpmfileutil.c in RPM source
         SIGNATURES = [
             (".bz2", b"BZh"),
@@ -174,13 +182,13 @@ class SpecParser:
                     path.write_text("DUMMY")
                 except (FileNotFoundError, OSError, PermissionError):
                     logger.warning(f"Failed to create a dummy source: {path}")
+                    discard(path)
                 else:
                     dummy_sources.append(path)
             yield dummy_sources
         finally:
             for path in dummy_sources:
-                # do not remove symlinks, only their targets created above
-                path.resolve().unlink()
+                discard(path)
 
     @contextlib.contextmanager
     def _sanitize_environment(self) -> Generator[os._Environ, None, None]:
-- 
2.43.0


From 01225310cad971f054439c197c849771f3ac037e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:44:24 +0000
Subject: [PATCH 63/69] fix: non-empty dummy sources given by URL were replaced
 with empty ones

---
 specfile/spec_parser.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/specfile/spec_parser.py b/specfile/spec_parser.py
index 6d42ffe..8ad1bb8 100644
--- a/specfile/spec_parser.py
+++ b/specfile/spec_parser.py
@@ -365,7 +365,11 @@ class SpecParser:
                     # non empty sources (if any), remove them; included and loaded files
                     # that are not sources have to be added though
                     sources |= {s for s, _, _ in spec.sources}
-                    sources -= non_empty_sources
+                    sources = {
+                        s
+                        for s in sources
+                        if get_filename_from_location(s) not in non_empty_sources
+                    }
 
         # workaround RPM lua tables feature/bug
         #
-- 
2.43.0


From a43af2c301a08c16c67a2d441142a2183c2bc4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:25 +0000
Subject: [PATCH 64/69] fix: shell and expression expansions with the same body
 were equal

---
 specfile/value_parser.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/specfile/value_parser.py b/specfile/value_parser.py
index e18d835..eeeea02 100644
--- a/specfile/value_parser.py
+++ b/specfile/value_parser.py
@@ -58,9 +58,10 @@ class ShellExpansion(Node):
         return f"%({self.body})"
 
     def __eq__(self, other: object) -> bool:
-        if not isinstance(other, self.__class__):
+        if not isinstance(other, ShellExpansion):
             return NotImplemented
-        return self.body == other.body
+        # there are inherited classes
+        return self.__class__ is other.__class__ and self.body == other.body
 
 
 class ExpressionExpansion(ShellExpansion):
-- 
2.43.0


From 98d8c897f10eede09ab7440c40deb349a3c4a33c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:31 +0000
Subject: [PATCH 65/69] fix: options with different positional arguments were
 equal

---
 specfile/options.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/specfile/options.py b/specfile/options.py
index 02e7446..804612b 100644
--- a/specfile/options.py
+++ b/specfile/options.py
@@ -259,6 +259,15 @@ class Options(collections.abc.MutableMapping):
     def __repr__(self) -> str:
         return f"Options({self._tokens!r}, {self.optstring!r}, {self.defaults!r})"
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, Options):
+            return super().__eq__(other)
+        return (
+            self._tokens == other._tokens
+            and self.optstring == other.optstring
+            and self.defaults == other.defaults
+        )
+
     def __str__(self) -> str:
         return "".join(str(t) for t in self._tokens)
 
-- 
2.43.0


From 7277c600f7dd475fb30c821163abe078b0b9b562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:37 +0000
Subject: [PATCH 66/69] fix: sections with different names or options were
 equal

---
 specfile/sections.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/specfile/sections.py b/specfile/sections.py
index 8697d41..7dee30f 100644
--- a/specfile/sections.py
+++ b/specfile/sections.py
@@ -98,6 +98,11 @@ class Section(collections.UserList):
             f"{self._get_separator(self.data)!r}, {self.data!r})"
         )
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, Section):
+            return super().__eq__(other)
+        return str(self) == str(other) and self.data == other.data
+
     @overload
     def __getitem__(self, i: SupportsIndex) -> str:
         pass
-- 
2.43.0


From add527290aa1966db7660217c687f581fabeb1d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:44 +0000
Subject: [PATCH 67/69] fix: instances differing only in the trailing newline
 were equal

---
 specfile/specfile.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/specfile/specfile.py b/specfile/specfile.py
index e5a0314..3110eb9 100644
--- a/specfile/specfile.py
+++ b/specfile/specfile.py
@@ -88,7 +88,7 @@ class Specfile:
         return (
             self.autosave == other.autosave
             and self._path == other._path
-            and self._lines == other._lines
+            and str(self) == str(other)
             and self._parser == other._parser
         )
 
-- 
2.43.0


From 4a77d799327d47df70023ca5f0dd0be65347fa44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:51 +0000
Subject: [PATCH 68/69] fix: views differing only in lines that do not belong
 to any item were equal

---
 specfile/changelog.py         |  5 +++++
 specfile/macro_definitions.py |  5 +++++
 specfile/prep.py              |  5 +++++
 specfile/sourcelist.py        |  5 +++++
 specfile/tags.py              | 10 ++++++++++
 5 files changed, 30 insertions(+)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index f1d91a3..58d9a2a 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -230,6 +230,11 @@ class Changelog(UserList[ChangelogEntry]):
     def __repr__(self) -> str:
         return f"Changelog({self.data!r}, {self._predecessor!r})"
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, Changelog):
+            return super().__eq__(other)
+        return self.data == other.data and self._predecessor == other._predecessor
+
     @overload
     def __getitem__(self, i: SupportsIndex) -> ChangelogEntry:
         pass
diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 00d77dc..6d2c743 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -180,6 +180,11 @@ class MacroDefinitions(UserList[MacroDefinition]):
     def __repr__(self) -> str:
         return f"MacroDefinitions({self.data!r}, {self._remainder!r})"
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, MacroDefinitions):
+            return super().__eq__(other)
+        return self.data == other.data and self._remainder == other._remainder
+
     def __contains__(self, name: object) -> bool:
         try:
             # use parent's __getattribute__() so this method can be called from __getattr__()
diff --git a/specfile/prep.py b/specfile/prep.py
index 86cefdc..80f08f3 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -182,6 +182,11 @@ class PrepMacros(UserList[PrepMacro]):
     def __repr__(self) -> str:
         return f"PrepMacros({self.data!r}, {self._remainder!r})"
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, PrepMacros):
+            return super().__eq__(other)
+        return self.data == other.data and self._remainder == other._remainder
+
     def __contains__(self, item: object) -> bool:
         if isinstance(item, type):
             return any(isinstance(m, item) for m in self.data)
diff --git a/specfile/sourcelist.py b/specfile/sourcelist.py
index 4bdd759..2f6c44d 100644
--- a/specfile/sourcelist.py
+++ b/specfile/sourcelist.py
@@ -107,6 +107,11 @@ class Sourcelist(UserList[SourcelistEntry]):
     def __repr__(self) -> str:
         return f"Sourcelist({self.data!r}, {self._remainder!r})"
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, Sourcelist):
+            return super().__eq__(other)
+        return self.data == other.data and self._remainder == other._remainder
+
     @overload
     def __getitem__(self, i: SupportsIndex) -> SourcelistEntry:
         pass
diff --git a/specfile/tags.py b/specfile/tags.py
index 8dd78d4..d656bd1 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -97,6 +97,11 @@ class Comments(UserList[Comment]):
     def __repr__(self) -> str:
         return f"Comments({self.data!r}, {self._preceding_lines!r})"
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, Comments):
+            return super().__eq__(other)
+        return self.data == other.data and self._preceding_lines == other._preceding_lines
+
     def __contains__(self, item: object) -> bool:
         if isinstance(item, str):
             return item in [c.text for c in self.data]
@@ -344,6 +349,11 @@ class Tags(UserList[Tag]):
     def __repr__(self) -> str:
         return f"Tags({self.data!r}, {self._remainder!r})"
 
+    def __eq__(self, other: object) -> bool:
+        if not isinstance(other, Tags):
+            return super().__eq__(other)
+        return self.data == other.data and self._remainder == other._remainder
+
     @overload
     def __getitem__(self, i: SupportsIndex) -> Tag:
         pass
-- 
2.43.0


From e236a9b2595554f897e78a91740047d58c08161f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:51:57 +0000
Subject: [PATCH 69/69] fix: copies of views shared lines that do not belong to
 any item

---
 specfile/changelog.py         | 3 +++
 specfile/macro_definitions.py | 3 +++
 specfile/prep.py              | 3 +++
 specfile/sourcelist.py        | 3 +++
 specfile/tags.py              | 6 ++++++
 5 files changed, 18 insertions(+)

diff --git a/specfile/changelog.py b/specfile/changelog.py
index 58d9a2a..ba31613 100644
--- a/specfile/changelog.py
+++ b/specfile/changelog.py
@@ -235,6 +235,9 @@ class Changelog(UserList[ChangelogEntry]):
             return super().__eq__(other)
         return self.data == other.data and self._predecessor == other._predecessor
 
+    def __copy__(self) -> "Changelog":
+        return Changelog(self.data, self._predecessor)
+
     @overload
     def __getitem__(self, i: SupportsIndex) -> ChangelogEntry:
         pass
diff --git a/specfile/macro_definitions.py b/specfile/macro_definitions.py
index 6d2c743..5928aa5 100644
--- a/specfile/macro_definitions.py
+++ b/specfile/macro_definitions.py
@@ -185,6 +185,9 @@ class MacroDefinitions(UserList[MacroDefinition]):
             return super().__eq__(other)
         return self.data == other.data and self._remainder == other._remainder
 
+    def __copy__(self) -> "MacroDefinitions":
+        return MacroDefinitions(self.data, self._remainder)
+
     def __contains__(self, name: object) -> bool:
         try:
             # use parent's __getattribute__() so this method can be called from __getattr__()
diff --git a/specfile/prep.py b/specfile/prep.py
index 80f08f3..ce99c82 100644
--- a/specfile/prep.py
+++ b/specfile/prep.py
@@ -187,6 +187,9 @@ class PrepMacros(UserList[PrepMacro]):
             return super().__eq__(other)
         return self.data == other.data and self._remainder == other._remainder
 
+    def __copy__(self) -> "PrepMacros":
+        return PrepMacros(self.data, self._remainder)
+
     def __contains__(self, item: object) -> bool:
         if isinstance(item, type):
             return any(isinstance(m, item) for m in self.data)
diff --git a/specfile/sourcelist.py b/specfile/sourcelist.py
index 2f6c44d..9c80651 100644
--- a/specfile/sourcelist.py
+++ b/specfile/sourcelist.py
@@ -112,6 +112,9 @@ class Sourcelist(UserList[SourcelistEntry]):
             return super().__eq__(other)
         return self.data == other.data and self._remainder == other._remainder
 
+    def __copy__(self) -> "Sourcelist":
+        return Sourcelist(self.data, self._remainder)
+
     @overload
     def __getitem__(self, i: SupportsIndex) -> SourcelistEntry:
         pass
diff --git a/specfile/tags.py b/specfile/tags.py
index d656bd1..d8b0539 100644
--- a/specfile/tags.py
+++ b/specfile/tags.py
@@ -102,6 +102,9 @@ class Comments(UserList[Comment]):
             return super().__eq__(other)
         return self.data == other.data and self._preceding_lines == other._preceding_lines
 
+    def __copy__(self) -> "Comments":
+        return Comments(self.data, self._preceding_lines)
+
     def __contains__(self, item: object) -> bool:
         if isinstance(item, str):
             return item in [c.text for c in self.data]
@@ -354,6 +357,9 @@ class Tags(UserList[Tag]):
             return super().__eq__(other)
         return self.data == other.data and self._remainder == other._remainder
 
+    def __copy__(self) -> "Tags":
+        return Tags(self.data, self._remainder)
+
     @overload
     def __getitem__(self, i: SupportsIndex) -> Tag:
         pass
-- 
2.43.0

