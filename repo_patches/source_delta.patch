From ad35589b065d794031c0880dd230f7826431c147 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:28 +0000
Subject: [PATCH 01/54] fix: quote backslashes and trailing newlines in ninja
 POSIX shell arguments

---
 gyp/pylib/gyp/generator/ninja.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/ninja.py b/gyp/pylib/gyp/generator/ninja.py
index ae3dded..ab3ab08 100644
--- a/gyp/pylib/gyp/generator/ninja.py
+++ b/gyp/pylib/gyp/generator/ninja.py
@@ -75,8 +75,10 @@ def QuoteShellArgument(arg, flavor):
     """Quote a string such that it will be interpreted as a single argument
     by the shell."""
     # Rather than attempting to enumerate the bad shell characters, just
-    # allow common OK ones and quote anything else.
-    if re.match(r"^[a-zA-Z0-9_=.\\/-]+$", arg):
+    # allow common OK ones and quote anything else. A backslash is only OK on
+    # Windows, POSIX shells remove it from an unquoted word.
+    safe = r"[a-zA-Z0-9_=.\\/-]+" if flavor == "win" else r"[a-zA-Z0-9_=./-]+"
+    if re.fullmatch(safe, arg):
         return arg  # No quoting necessary.
     if flavor == "win":
         return gyp.msvs_emulation.QuoteForRspFile(arg)
-- 
2.43.0


From d2e8d1bc1d8e5256c2e5dca3d5c83e7e01bdf994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:21 +0000
Subject: [PATCH 02/54] fix: keep backslashes before # in preprocessor
 definitions written to Makefiles

---
 gyp/pylib/gyp/generator/make.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 634da89..89a11ff 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -722,8 +722,8 @@ def EscapeCppDefine(s):
     s = EscapeShellArgument(s)
     s = EscapeMakeVariableExpansion(s)
     # '#' characters must be escaped even embedded in a string, else Make will
-    # treat it as the start of a comment.
-    return s.replace("#", r"\#")
+    # treat it as the start of a comment. Make halves backslashes before a '#'.
+    return re.sub(r"(\\*)#", r"\1\1\\#", s)
 
 
 def QuoteIfNecessary(string):
-- 
2.43.0


From 3f4aee31402a7eabb7dfa75fa17d1127fd930673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:37 +0000
Subject: [PATCH 03/54] fix: keep runs of spaces and leading escaped spaces
 when wrapping ninja lines

---
 gyp/pylib/gyp/ninja_syntax.py | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/gyp/pylib/gyp/ninja_syntax.py b/gyp/pylib/gyp/ninja_syntax.py
index 0e3e86c..e630c18 100644
--- a/gyp/pylib/gyp/ninja_syntax.py
+++ b/gyp/pylib/gyp/ninja_syntax.py
@@ -116,11 +116,20 @@ class Writer:
         """Returns the number of '$' characters right in front of s[i]."""
         dollar_count = 0
         dollar_index = i - 1
-        while dollar_index > 0 and s[dollar_index] == "$":
+        while dollar_index >= 0 and s[dollar_index] == "$":
             dollar_count += 1
             dollar_index -= 1
         return dollar_count
 
+    def _can_break_at(self, text, i):
+        """Returns whether the space text[i] can be replaced by a line break: not
+        an escaped space, nor one followed by spaces, which the parser would take
+        for indentation of the continuation line."""
+        return (
+            self._count_dollars_before_index(text, i) % 2 == 0
+            and text[i + 1 : i + 2] != " "
+        )
+
     def _line(self, text, indent=0):
         """Write 'text' word-wrapped at self.width characters."""
         leading_space = "  " * indent
@@ -133,7 +142,7 @@ class Writer:
             space = available_space
             while True:
                 space = text.rfind(" ", 0, space)
-                if space < 0 or self._count_dollars_before_index(text, space) % 2 == 0:
+                if space < 0 or self._can_break_at(text, space):
                     break
 
             if space < 0:
@@ -141,10 +150,7 @@ class Writer:
                 space = available_space - 1
                 while True:
                     space = text.find(" ", space + 1)
-                    if (
-                        space < 0
-                        or self._count_dollars_before_index(text, space) % 2 == 0
-                    ):
+                    if space < 0 or self._can_break_at(text, space):
                         break
             if space < 0:
                 # Give up on breaking.
-- 
2.43.0


From 6d70e4d675f0ca2c71d14e3ee9e2d8e15729e06f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:37 +0000
Subject: [PATCH 04/54] fix: double trailing backslashes in quoted Windows
 arguments

---
 gyp/pylib/gyp/msvs_emulation.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gyp/pylib/gyp/msvs_emulation.py b/gyp/pylib/gyp/msvs_emulation.py
index adda5a0..9632ad5 100644
--- a/gyp/pylib/gyp/msvs_emulation.py
+++ b/gyp/pylib/gyp/msvs_emulation.py
@@ -39,6 +39,9 @@ def QuoteForRspFile(arg, quote_cmd=True):
     # in 2* what we match, +1 more, plus the quote.
     if quote_cmd:
         arg = windows_quoter_regex.sub(lambda mo: 2 * mo.group(1) + '\\"', arg)
+        # Backslashes at the end come to stand before the closing quote added
+        # below, so they have to be doubled as well.
+        arg += "\\" * (len(arg) - len(arg.rstrip("\\")))
 
     # %'s also need to be doubled otherwise they're interpreted as batch
     # positional arguments. Also make sure to escape the % so that they're
-- 
2.43.0


From 8c8996eb5a3aa5e1c5b9ac2c422e942bc9d318e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:56:13 +0000
Subject: [PATCH 05/54] fix: keep # in action and rule arguments written to
 Makefiles

---
 gyp/pylib/gyp/generator/make.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 89a11ff..df444f1 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -721,8 +721,12 @@ def EscapeCppDefine(s):
     """Escapes a CPP define so that it will reach the compiler unaltered."""
     s = EscapeShellArgument(s)
     s = EscapeMakeVariableExpansion(s)
-    # '#' characters must be escaped even embedded in a string, else Make will
-    # treat it as the start of a comment. Make halves backslashes before a '#'.
+    return EscapeMakeComment(s)
+
+
+def EscapeMakeComment(s):
+    """'#' characters must be escaped even embedded in a string, else Make will
+    treat it as the start of a comment. Make halves backslashes before a '#'."""
     return re.sub(r"(\\*)#", r"\1\1\\#", s)
 
 
@@ -1053,6 +1057,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                     for command in action_commands
                 ]
             command = gyp.common.EncodePOSIXShellList(action_commands)
+            command = EscapeMakeComment(command)
             if "message" in action:
                 self.WriteLn(
                     "quiet_cmd_{} = ACTION {} $@".format(name, action["message"])
@@ -1237,6 +1242,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                         for command in action
                     ]
                 action = gyp.common.EncodePOSIXShellList(action)
+                action = EscapeMakeComment(action)
                 action = action.replace("$(TARGET)", self.target)
                 cd_action = cd_action.replace("$(TARGET)", self.target)
                 mkdirs = mkdirs.replace("$(TARGET)", self.target)
-- 
2.43.0


From 4ab73e0607f905acaba76fe599c9937d67da4ebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 06/54] fix: integer division when escaping quoted definitions
 for MSBuild

---
 gyp/pylib/gyp/generator/msvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index bea6e64..2781bb6 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -860,7 +860,7 @@ def _EscapeCommandLineArgumentForMSBuild(s):
     """Escapes a Windows command-line argument for use by MSBuild."""
 
     def _Replace(match):
-        return (len(match.group(1)) / 2 * 4) * "\\" + '\\"'
+        return (len(match.group(1)) // 2 * 4) * "\\" + '\\"'
 
     # Escape all quotes so that they are interpreted literally.
     s = quote_replacer_regex2.sub(_Replace, s)
-- 
2.43.0


From fb56d3c5723bd67281b89daa61b2882514d21e10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:04:13 +0000
Subject: [PATCH 07/54] fix: double trailing backslashes in definitions for
 MSVS projects

---
 gyp/pylib/gyp/generator/msvs.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index 2781bb6..9137a3f 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -785,6 +785,8 @@ def _EscapeCommandLineArgumentForMSVS(s):
 
     # Escape all quotes so that they are interpreted literally.
     s = quote_replacer_regex.sub(_Replace, s)
+    # Double the backslashes that come to stand before the closing quote.
+    s += "\\" * (len(s) - len(s.rstrip("\\")))
     # Now add unescaped quotes so that any whitespace is interpreted literally.
     s = '"' + s + '"'
     return s
-- 
2.43.0


From 2ed5946ca2536df9ca23e3a94f1c09d1e2fed6d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:53 +0000
Subject: [PATCH 08/54] fix: escape tabs in XML attributes

---
 gyp/pylib/gyp/easy_xml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gyp/pylib/gyp/easy_xml.py b/gyp/pylib/gyp/easy_xml.py
index 02567b2..fecf16c 100644
--- a/gyp/pylib/gyp/easy_xml.py
+++ b/gyp/pylib/gyp/easy_xml.py
@@ -148,6 +148,7 @@ _xml_escape_map = {
     "<": "&lt;",
     ">": "&gt;",
     "&": "&amp;",
+    "\t": "&#x9;",
     "\n": "&#xA;",
     "\r": "&#xD;",
 }
-- 
2.43.0


From f5cbcf51d9f869c005b8923487414be95aa78b00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 09/54] fix: accept only ASCII digits as canonical integers

---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 5e71fda..5f27129 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -706,7 +706,7 @@ def IsStrCanonicalInt(string):
                 if not string:
                     return False
             if "1" <= string[0] <= "9":
-                return string.isdigit()
+                return string.isascii() and string.isdigit()
 
     return False
 
-- 
2.43.0


From 0735bc29280e211491c62ab172aac71b95f5f9d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 10/54] fix: treat commands killed by a signal as failed

---
 gyp/pylib/gyp/input.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 5f27129..d87268d 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -973,7 +973,7 @@ def ExpandVariables(input, phase, variables, build_file):
                             % (e, contents, build_file)
                         )
 
-                    if result.returncode > 0:
+                    if result.returncode != 0:
                         raise GypError(
                             "Call to '%s' returned exit status %d while in %s."
                             % (contents, result.returncode, build_file)
-- 
2.43.0


From 21f49fe0642bb17e1efea7a40ac8dfd7185dca4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 11/54] fix: do not modify list variables while expanding
 references to them

---
 gyp/pylib/gyp/input.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index d87268d..183cf5e 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -1026,7 +1026,9 @@ def ExpandVariables(input, phase, variables, build_file):
                     )
             # Run through the list and handle variable expansions in it.  Since
             # the list is guaranteed not to contain dicts, this won't do anything
-            # with conditions sections.
+            # with conditions sections.  Work on a copy: the variable itself may be
+            # referenced again from a scope in which its items expand differently.
+            replacement = gyp.simple_copy.deepcopy(replacement)
             ProcessVariablesAndConditionsInList(
                 replacement, phase, variables, build_file
             )
-- 
2.43.0


From bfe474919009aeaca1161b50df6156565bc0b43f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:56 +0000
Subject: [PATCH 12/54] fix: expand references whose name is a number or empty
 without crashing

---
 gyp/pylib/gyp/input.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 183cf5e..6397ada 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -842,6 +842,10 @@ def ExpandVariables(input, phase, variables, build_file):
             # Recurse to expand variables in the contents
             contents = ExpandVariables(contents, phase, variables, build_file)
 
+        # A name made of digits comes back as an integer.
+        if isinstance(contents, int):
+            contents = str(contents)
+
         # Strip off leading/trailing whitespace so that variable matches are
         # simpler below (and because they are rarely needed).
         contents = contents.strip()
@@ -992,7 +996,7 @@ def ExpandVariables(input, phase, variables, build_file):
 
         else:
             if contents not in variables:
-                if contents[-1] in ["!", "/"]:
+                if contents[-1:] in ["!", "/"]:
                     # In order to allow cross-compiles (nacl) to happen more naturally,
                     # we will allow references to >(sources/) etc. to resolve to
                     # and empty list if undefined. This allows actions to:
-- 
2.43.0


From 283a0f2f2715aa01eb82efc2512d6510c297f686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:20 +0000
Subject: [PATCH 13/54] fix: report unsupported types in simple_copy as
 intended

---
 gyp/pylib/gyp/simple_copy.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/simple_copy.py b/gyp/pylib/gyp/simple_copy.py
index 729cec0..66f8ba0 100644
--- a/gyp/pylib/gyp/simple_copy.py
+++ b/gyp/pylib/gyp/simple_copy.py
@@ -25,7 +25,7 @@ def deepcopy(x):
     except KeyError:
         raise Error(
             "Unsupported type %s for deepcopy. Use copy.deepcopy "
-            + "or expand simple_copy support." % type(x)
+            "or expand simple_copy support." % type(x)
         )
 
 
-- 
2.43.0


From 78953bc4e5eb804557ec0f88d8a6726db40b1e41 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:34 +0000
Subject: [PATCH 14/54] fix: keep the first position of items prepended twice
 by one list

---
 gyp/pylib/gyp/input.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 6397ada..212383a 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -2274,7 +2274,10 @@ def MergeLists(to, fro, to_file, fro_file, is_paths=False, append=True):
         else:
             # If prepending a singleton that's already in the list, remove the
             # existing instance and proceed with the prepend.  This ensures that the
-            # item appears at the earliest possible position in the list.
+            # item appears at the earliest possible position in the list.  If this
+            # merge already prepended it, it is at that position.
+            if singleton and to_item in to[:prepend_index]:
+                continue
             while singleton and to_item in to:
                 to.remove(to_item)
 
-- 
2.43.0


From 6556555f8eba97c9bec66652cad3bafc94bdd385 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:21 +0000
Subject: [PATCH 15/54] fix: do not take patterns in dependency filters for
 target names

---
 gyp/pylib/gyp/input.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 212383a..89ecc93 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -1482,8 +1482,10 @@ def QualifyDependencies(targets):
   similar dict.
   """
 
+    # Lists of patterns ("/") don't name targets; they are matched against the
+    # qualified names when filters are applied.
     all_dependency_sections = [
-        dep + op for dep in dependency_sections for op in ("", "!", "/")
+        dep + op for dep in dependency_sections for op in ("", "!")
     ]
 
     for target, target_dict in targets.items():
-- 
2.43.0


From 6abec6619e5366883cdacb082ec7facb5455f6a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 16/54] fix: write XML files as bytes in every locale and leave
 unchanged ones alone

---
 gyp/pylib/gyp/easy_xml.py | 17 ++++++-----------
 1 file changed, 6 insertions(+), 11 deletions(-)

diff --git a/gyp/pylib/gyp/easy_xml.py b/gyp/pylib/gyp/easy_xml.py
index fecf16c..ea79be3 100644
--- a/gyp/pylib/gyp/easy_xml.py
+++ b/gyp/pylib/gyp/easy_xml.py
@@ -5,7 +5,6 @@
 import sys
 import re
 import os
-import locale
 from functools import reduce
 
 
@@ -121,25 +120,21 @@ def WriteXmlIfChanged(content, path, encoding="utf-8", pretty=False,
     if win32 and os.linesep != "\r\n":
         xml_string = xml_string.replace("\n", "\r\n")
 
-    try:  # getdefaultlocale() was removed in Python 3.11
-        default_encoding = locale.getdefaultlocale()[1]
-    except AttributeError:
-        default_encoding = locale.getencoding()
-
-    if default_encoding and default_encoding.upper() != encoding.upper():
-        xml_string = xml_string.encode(encoding)
+    # Files are written and compared as bytes, so that neither the locale nor line
+    # ending conversion matters.
+    xml_bytes = xml_string.encode(encoding)
 
     # Get the old content
     try:
-        with open(path) as file:
+        with open(path, "rb") as file:
             existing = file.read()
     except OSError:
         existing = None
 
     # It has changed, write it
-    if existing != xml_string:
+    if existing != xml_bytes:
         with open(path, "wb") as file:
-            file.write(xml_string)
+            file.write(xml_bytes)
 
 
 _xml_escape_map = {
-- 
2.43.0


From ee8d85f4e9bc7c8e3c136eb5fb245f64e79448f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:44:54 +0000
Subject: [PATCH 17/54] fix: replace changed files in one step on Windows

---
 gyp/pylib/gyp/common.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/gyp/pylib/gyp/common.py b/gyp/pylib/gyp/common.py
index 762ae02..1908af7 100644
--- a/gyp/pylib/gyp/common.py
+++ b/gyp/pylib/gyp/common.py
@@ -399,12 +399,9 @@ def WriteOnDiff(filename):
                     umask = os.umask(0o77)
                     os.umask(umask)
                     os.chmod(self.tmp_path, 0o666 & ~umask)
-                    if sys.platform == "win32" and os.path.exists(filename):
-                        # NOTE: on windows (but not cygwin) rename will not replace an
-                        # existing file, so it must be preceded with a remove.
-                        # Sadly there is no way to make the switch atomic.
-                        os.remove(filename)
-                    os.rename(self.tmp_path, filename)
+                    # NOTE: os.replace also replaces an existing file on Windows, so
+                    # the old one stays in place if this fails.
+                    os.replace(self.tmp_path, filename)
             except Exception:
                 # Don't leave turds behind.
                 os.unlink(self.tmp_path)
-- 
2.43.0


From 11432c37f3e20674f04acbca59c35f9e45d1fd92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:52:54 +0000
Subject: [PATCH 18/54] fix: let DEPTH lead from each build file's own
 directory in late phases

The variable kept the value of the build file loaded last (or none, when
loading in parallel), so >(DEPTH) and ^(DEPTH) named another directory.
---
 gyp/pylib/gyp/input.py | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index 89ecc93..c53495c 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -356,6 +356,20 @@ def ProcessToolsetsInDict(data):
                         ProcessToolsetsInDict(condition_dict)
 
 
+def SetDepthVariable(variables, depth, build_file_path):
+    # If depth is set, predefine the DEPTH variable to be a relative path from
+    # this build file's directory to the directory identified by depth.
+    if depth:
+        # TODO(dglazkov) The backslash/forward-slash replacement at the end is a
+        # temporary measure. This should really be addressed by keeping all paths
+        # in POSIX until actual project generation.
+        d = gyp.common.RelativePath(depth, os.path.dirname(build_file_path))
+        if d == "":
+            variables["DEPTH"] = "."
+        else:
+            variables["DEPTH"] = d.replace("\\", "/")
+
+
 # TODO(mark): I don't love this name.  It just means that it's going to load
 # a build file that contains targets and is expected to provide a targets dict
 # that contains the targets...
@@ -369,17 +383,7 @@ def LoadTargetBuildFile(
     check,
     load_dependencies,
 ):
-    # If depth is set, predefine the DEPTH variable to be a relative path from
-    # this build file's directory to the directory identified by depth.
-    if depth:
-        # TODO(dglazkov) The backslash/forward-slash replacement at the end is a
-        # temporary measure. This should really be addressed by keeping all paths
-        # in POSIX until actual project generation.
-        d = gyp.common.RelativePath(depth, os.path.dirname(build_file_path))
-        if d == "":
-            variables["DEPTH"] = "."
-        else:
-            variables["DEPTH"] = d.replace("\\", "/")
+    SetDepthVariable(variables, depth, build_file_path)
 
     # The 'target_build_files' key is only set when loading target build files in
     # the non-parallel code path, where LoadTargetBuildFile is called
@@ -3081,6 +3085,7 @@ def Load(
     for target in flat_list:
         target_dict = targets[target]
         build_file = gyp.common.BuildFile(target)
+        SetDepthVariable(variables, depth, build_file)
         ProcessVariablesAndConditionsInDict(
             target_dict, PHASE_LATE, variables, build_file
         )
@@ -3099,6 +3104,7 @@ def Load(
     for target in flat_list:
         target_dict = targets[target]
         build_file = gyp.common.BuildFile(target)
+        SetDepthVariable(variables, depth, build_file)
         ProcessVariablesAndConditionsInDict(
             target_dict, PHASE_LATELATE, variables, build_file
         )
-- 
2.43.0


From f9246e7126e4aedceb32bd001d4792d55bfc9a18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:17 +0000
Subject: [PATCH 19/54] fix: do not take files above the source tree for files
 in it

The analyzer resolved ../x.c in a build file at the top of the tree to x.c.
---
 gyp/pylib/gyp/generator/analyzer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/analyzer.py b/gyp/pylib/gyp/generator/analyzer.py
index 64573ad..50c96c6 100644
--- a/gyp/pylib/gyp/generator/analyzer.py
+++ b/gyp/pylib/gyp/generator/analyzer.py
@@ -191,7 +191,7 @@ def _ExtractSources(target, target_dict, toplevel_dir):
     # source paths are always posix. Convert |target| to a posix path relative to
     # |toplevel_dir_|. This is done to make it easy to build source paths.
     base_path = posixpath.dirname(_ToLocalPath(toplevel_dir, _ToGypPath(target)))
-    base_path_components = base_path.split("/")
+    base_path_components = base_path.split("/") if base_path else []
 
     # Add a trailing '/' so that _AddSources() can easily build paths.
     if len(base_path):
-- 
2.43.0


From e18577ae453b48c0cb45311914c342b2ddb0e318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:45 +0000
Subject: [PATCH 20/54] fix: list changed static libraries for compilation
 whatever the order

A changed static library was left out if it was first visited as a dependent
of another changed target, or if the only target linking it was not requested.
---
 gyp/pylib/gyp/generator/analyzer.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/analyzer.py b/gyp/pylib/gyp/generator/analyzer.py
index 50c96c6..ffc278a 100644
--- a/gyp/pylib/gyp/generator/analyzer.py
+++ b/gyp/pylib/gyp/generator/analyzer.py
@@ -491,10 +491,21 @@ def _AddCompileTargets(target, roots, add_if_no_ancestor, result):
     target.in_roots = target in roots
 
     for back_dep_target in target.back_deps:
-        _AddCompileTargets(back_dep_target, roots, False, result)
+        # A target that changed itself is treated as such no matter which of the
+        # changed targets is visited first.
+        _AddCompileTargets(
+            back_dep_target,
+            roots,
+            back_dep_target.match_status == MATCH_STATUS_MATCHES,
+            result,
+        )
         target.added_to_compile_targets |= back_dep_target.added_to_compile_targets
         target.in_roots |= back_dep_target.in_roots
-        target.is_or_has_linked_ancestor |= back_dep_target.is_or_has_linked_ancestor
+        # Only targets that are going to be built link their static libraries.
+        if back_dep_target.in_roots:
+            target.is_or_has_linked_ancestor |= (
+                back_dep_target.is_or_has_linked_ancestor
+            )
 
     # Always add 'executable' targets. Even though they may be built by other
     # targets that depend upon them it makes detection of what is going to be
-- 
2.43.0


From 7ef271ba244b750bff29072ddccd1cb05ed489d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:32:58 +0000
Subject: [PATCH 21/54] fix: report list values and negative culture ids in
 MSVS settings

A list given for a boolean, integer or enumerated setting raised TypeError
instead of the warning that other invalid values get, and a negative
Culture was converted to 0x-001, which MSBuild does not accept.
---
 gyp/pylib/gyp/MSVSSettings.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/gyp/pylib/gyp/MSVSSettings.py b/gyp/pylib/gyp/MSVSSettings.py
index fea6e67..f1db765 100644
--- a/gyp/pylib/gyp/MSVSSettings.py
+++ b/gyp/pylib/gyp/MSVSSettings.py
@@ -172,7 +172,10 @@ class _Integer(_Type):
 
     def ConvertToMSBuild(self, value):
         msbuild_format = ((self._msbuild_base == 10) and "%d") or "0x%04x"
-        return msbuild_format % int(value)
+        number = int(value)
+        if number < 0 and self._msbuild_base != 10:
+            raise ValueError("expected non-negative integer; got %r" % value)
+        return msbuild_format % number
 
 
 class _Enumeration(_Type):
@@ -464,7 +467,7 @@ def ConvertToMSBuildSettings(msvs_settings, stderr=sys.stderr):
                     # Invoke the translation function.
                     try:
                         msvs_tool[msvs_setting](msvs_value, msbuild_settings)
-                    except ValueError as e:
+                    except (TypeError, ValueError) as e:
                         print(
                             "Warning: while converting %s/%s to MSBuild, "
                             "%s" % (msvs_tool_name, msvs_setting, e),
@@ -530,7 +533,7 @@ def _ValidateSettings(validators, settings, stderr):
                 if setting in tool_validators:
                     try:
                         tool_validators[setting](value)
-                    except ValueError as e:
+                    except (TypeError, ValueError) as e:
                         print(
                             f"Warning: for {tool_name}/{setting}, {e}",
                             file=stderr,
-- 
2.43.0


From 23a2d1e1b466627515be4e609dadec17ba050a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:55 +0000
Subject: [PATCH 22/54] fix: keep commands of actions and rules with similar
 names apart

Names such as a-b and a_b became the same rule name in ninja (duplicate
rule) and the same variable in make, where both ran the last command. An
action and a rule of the same name collided in ninja, too.  Rules raised
TypeError in ninja for Windows because MD5 was given a string.
---
 gyp/pylib/gyp/generator/make.py  | 35 ++++++++++++++++++++++----------
 gyp/pylib/gyp/generator/ninja.py | 10 ++++++++-
 2 files changed, 33 insertions(+), 12 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index df444f1..60a65c9 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -747,6 +747,21 @@ def StringToMakefileVariable(string):
     return re.sub("[^a-zA-Z0-9_]", "_", string)
 
 
+# Names of commands written so far.  All makefiles share one namespace.
+command_names = set()
+
+
+def UniqueCommandName(string):
+    """Convert a string to a make variable name that names no other command."""
+    base = name = StringToMakefileVariable(string)
+    count = 1
+    while name in command_names:
+        count += 1
+        name = f"{base}_{count}"
+    command_names.add(name)
+    return name
+
+
 srcdir_prefix = ""
 
 
@@ -1030,7 +1045,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
         """
         env = self.GetSortedXcodeEnv()
         for action in actions:
-            name = StringToMakefileVariable(
+            name = UniqueCommandName(
                 "{}_{}".format(self.qualified_target, action["action_name"])
             )
             self.WriteLn('### Rules for action "%s":' % action["action_name"])
@@ -1155,7 +1170,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
         """
         env = self.GetSortedXcodeEnv()
         for rule in rules:
-            name = StringToMakefileVariable(
+            name = UniqueCommandName(
                 "{}_{}".format(self.qualified_target, rule["rule_name"])
             )
             count = 0
@@ -1187,7 +1202,8 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                     Sourceify(self.Absolutify(i))
                     for i in [rule_source] + rule.get("inputs", [])
                 ]
-                actions = ["$(call do_cmd,%s_%d)" % (name, count)]
+                command_name = UniqueCommandName("%s_%d" % (name, count))
+                actions = ["$(call do_cmd,%s)" % command_name]
 
                 if name == "resources_grit":
                     # HACK: This is ugly.  Grit intentionally doesn't touch the
@@ -1209,9 +1225,7 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                 # accidentally writing duplicate dummy rules for those outputs.
                 self.WriteLn("%s: obj := $(abs_obj)" % outputs[0])
                 self.WriteLn("%s: builddir := $(abs_builddir)" % outputs[0])
-                self.WriteMakeRule(
-                    outputs, inputs, actions, command="%s_%d" % (name, count)
-                )
+                self.WriteMakeRule(outputs, inputs, actions, command=command_name)
                 # Spaces in rule filenames are not supported, but rule variables have
                 # spaces in them (e.g. RULE_INPUT_PATH expands to '$(abspath $<)').
                 # The spaces within the variables are valid, so remove the variables
@@ -1254,21 +1268,20 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
                 # target libraries.
                 # TODO(piman): when everything is cross-compile safe, remove lib.target
                 self.WriteLn(
-                    "cmd_%(name)s_%(count)d = LD_LIBRARY_PATH="
+                    "cmd_%(name)s = LD_LIBRARY_PATH="
                     "$(builddir)/lib.host:$(builddir)/lib.target:$$LD_LIBRARY_PATH; "
                     "export LD_LIBRARY_PATH; "
                     "%(cd_action)s%(mkdirs)s%(action)s"
                     % {
                         "action": action,
                         "cd_action": cd_action,
-                        "count": count,
                         "mkdirs": mkdirs,
-                        "name": name,
+                        "name": command_name,
                     }
                 )
                 self.WriteLn(
-                    "quiet_cmd_%(name)s_%(count)d = RULE %(name)s_%(count)d $@"
-                    % {"count": count, "name": name}
+                    "quiet_cmd_%(name)s = RULE %(name)s $@"
+                    % {"name": command_name}
                 )
                 self.WriteLn()
                 count += 1
diff --git a/gyp/pylib/gyp/generator/ninja.py b/gyp/pylib/gyp/generator/ninja.py
index ab3ab08..557475c 100644
--- a/gyp/pylib/gyp/generator/ninja.py
+++ b/gyp/pylib/gyp/generator/ninja.py
@@ -240,6 +240,7 @@ class NinjaWriter:
         self.ninja = ninja_syntax.Writer(output_file)
         self.toplevel_build = toplevel_build
         self.output_file_name = output_file_name
+        self.rule_names = set()
 
         self.flavor = flavor
         self.abs_build_dir = None
@@ -815,7 +816,7 @@ class NinjaWriter:
                 if self.flavor == "win":
                     # WriteNewNinjaRule uses unique_name to create a rsp file on win.
                     extra_bindings.append(
-                        ("unique_name", hashlib.md5(outputs[0]).hexdigest())
+                        ("unique_name", hashlib.md5(outputs[0].encode("utf-8")).hexdigest())
                     )
 
                 self.ninja.build(
@@ -1929,6 +1930,13 @@ class NinjaWriter:
             rule_name += "." + self.toolset
         rule_name += "." + name
         rule_name = re.sub("[^a-zA-Z0-9_]", "_", rule_name)
+        # Different names can become the same one here.
+        base_rule_name = rule_name
+        count = 1
+        while rule_name in self.rule_names:
+            count += 1
+            rule_name = f"{base_rule_name}_{count}"
+        self.rule_names.add(rule_name)
 
         # Remove variable references, but not if they refer to the magic rule
         # variables.  This is not quite right, as it also protects these for
-- 
2.43.0


From 2a1c802e4bb677bef4788de56f72632acccf4af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 23/54] fix: make: leave percent signs in rule outputs and
 arguments alone

A rule whose output or argument held both a placeholder and another percent
sign, e.g. 100%/%(INPUT_ROOT)s.c, raised ValueError or TypeError.
---
 gyp/pylib/gyp/generator/make.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/gyp/pylib/gyp/generator/make.py b/gyp/pylib/gyp/generator/make.py
index 60a65c9..4e4a9ef 100644
--- a/gyp/pylib/gyp/generator/make.py
+++ b/gyp/pylib/gyp/generator/make.py
@@ -2354,13 +2354,11 @@ $(obj).$(TOOLSET)/$(TARGET)/%%.o: $(obj)/%%%s FORCE_DO_CMD
         return os.path.normpath(os.path.join(self.path, path))
 
     def ExpandInputRoot(self, template, expansion, dirname):
-        if "%(INPUT_ROOT)s" not in template and "%(INPUT_DIRNAME)s" not in template:
-            return template
-        path = template % {
-            "INPUT_ROOT": expansion,
-            "INPUT_DIRNAME": dirname,
-        }
-        return path
+        # Other percent signs are not placeholders.
+        values = {"%(INPUT_ROOT)s": expansion, "%(INPUT_DIRNAME)s": dirname}
+        return re.sub(
+            r"%\((?:INPUT_ROOT|INPUT_DIRNAME)\)s", lambda m: values[m.group(0)], template
+        )
 
     def _InstallableTargetInstallPath(self):
         """Returns the location of the final output for an installable target."""
-- 
2.43.0


From b91bf40691377d741014edaf46f990d5ad967333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:13 +0000
Subject: [PATCH 24/54] fix: install the requested version when falling back to
 the temporary directory

---
 lib/install.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/install.js b/lib/install.js
index 7196a31..adcb129 100644
--- a/lib/install.js
+++ b/lib/install.js
@@ -389,7 +389,7 @@ async function install (gyp, argv) {
       log.verbose('tmpdir == cwd', 'automatically will remove dev files after to save disk space')
       gyp.todo.push({ name: 'remove', args: argv })
     }
-    return gyp.commands.install([noretry].concat(argv))
+    return gyp.commands.install(argv.concat(noretry))
   }
 }
 
-- 
2.43.0


From ddd9ee1429767629fc5b8719b9e3f7b113816e1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:24 +0000
Subject: [PATCH 25/54] fix: write the installVersion marker after the download
 is verified

---
 lib/install.js | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/install.js b/lib/install.js
index adcb129..62a19ed 100644
--- a/lib/install.js
+++ b/lib/install.js
@@ -257,12 +257,9 @@ async function install (gyp, argv) {
         log.verbose('tarball', 'done parsing tarball')
       }
 
-      const installVersionPath = path.resolve(tarExtractDir, 'installVersion')
       await Promise.all([
       // need to download node.lib
         ...(win ? [downloadNodeLib()] : []),
-        // write the "installVersion" file
-        fs.writeFile(installVersionPath, gyp.package.installVersion + '\n'),
         // Only download SHASUMS.txt if we downloaded something in need of SHA verification
         ...(!tarPath || win ? [downloadShasums()] : [])
       ])
@@ -276,6 +273,10 @@ async function install (gyp, argv) {
         }
       }
 
+      // write the "installVersion" file, now that everything has been verified
+      const installVersionPath = path.resolve(tarExtractDir, 'installVersion')
+      await fs.writeFile(installVersionPath, gyp.package.installVersion + '\n')
+
       // copy over the files from the temp tarball extract directory to devDir
       if (tarExtractDir !== devDir) {
         await copyDirectory(tarExtractDir, devDir)
-- 
2.43.0


From 35ac5280a453d17932d35f9a73b0b9fad47870b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:44 +0000
Subject: [PATCH 26/54] fix: remove only directories inside the dev dir

---
 lib/remove.js | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/remove.js b/lib/remove.js
index 7efdb01..d03f395 100644
--- a/lib/remove.js
+++ b/lib/remove.js
@@ -24,6 +24,11 @@ async function remove (gyp, argv) {
   }
 
   const versionPath = path.resolve(gyp.devDir, version)
+  // only directories in the dev dir may be removed, not the dev dir itself or anything outside of it
+  const basePath = path.resolve(gyp.devDir)
+  if (versionPath === basePath || path.dirname(versionPath) !== basePath) {
+    throw new Error('Invalid version number: ' + version)
+  }
   log.verbose('remove', 'removing development files for version:', version)
 
   // first check if its even installed
-- 
2.43.0


From 7144c33a0f57fb3e40a09467c12323acc84885af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:00 +0000
Subject: [PATCH 27/54] fix: take only own names for commands and aliases

A word such as toString or constructor on the command line was looked up in
the prototype of the alias table and replaced by a function.
---
 lib/node-gyp.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/node-gyp.js b/lib/node-gyp.js
index 5e25bf9..5a95348 100644
--- a/lib/node-gyp.js
+++ b/lib/node-gyp.js
@@ -100,7 +100,7 @@ class Gyp extends EventEmitter {
     // create a copy of the argv array with aliases mapped
     argv = this.argv.map((arg) => {
     // is this an alias?
-      if (arg in this.aliases) {
+      if (Object.hasOwn(this.aliases, arg)) {
         arg = this.aliases[arg]
       }
       return arg
@@ -108,7 +108,7 @@ class Gyp extends EventEmitter {
 
     // process the mapped args into "command" objects ("name" and "args" props)
     argv.slice().forEach((arg) => {
-      if (arg in this.commands) {
+      if (Object.hasOwn(this.commands, arg)) {
         const args = argv.splice(0, argv.indexOf(arg))
         argv.shift()
         if (commands.length > 0) {
-- 
2.43.0


From 78e1d642527e2dd160e97266ab2c9895686303d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:00 +0000
Subject: [PATCH 28/54] fix: enable marmasm only from Visual Studio 2017
 version 15.9

The minor version was never looked at, so every Visual Studio 2017 passed.
---
 lib/create-config-gypi.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/create-config-gypi.js b/lib/create-config-gypi.js
index 01a820e..bdaf3ec 100644
--- a/lib/create-config-gypi.js
+++ b/lib/create-config-gypi.js
@@ -88,7 +88,7 @@ async function getCurrentConfigGypi ({ gyp, nodeDir, vsInfo, python }) {
     }
     if (variables.target_arch === 'arm64') {
       if (vsInfo.versionMajor > 15 ||
-          (vsInfo.versionMajor === 15 && vsInfo.versionMajor >= 9)) {
+          (vsInfo.versionMajor === 15 && vsInfo.versionMinor >= 9)) {
         defaults.msvs_enable_marmasm = 1
       } else {
         log.warn('Compiling ARM64 assembly is only available in\n' +
-- 
2.43.0


From c3f60eef2a5f289a5d3238f8283908fd8aeeb3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:00 +0000
Subject: [PATCH 29/54] fix: write options named like object methods to
 config.gypi

Options such as --constructor were taken for options of node-gyp, because the
table of known options was searched with its prototype.
---
 lib/create-config-gypi.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/create-config-gypi.js b/lib/create-config-gypi.js
index bdaf3ec..0b35cf9 100644
--- a/lib/create-config-gypi.js
+++ b/lib/create-config-gypi.js
@@ -109,7 +109,7 @@ async function getCurrentConfigGypi ({ gyp, nodeDir, vsInfo, python }) {
     if (opt === 'argv') {
       return
     }
-    if (opt in gyp.configDefs) {
+    if (Object.hasOwn(gyp.configDefs, opt)) {
       return
     }
     variables[opt.replace(/-/g, '_')] = gyp.opts[opt]
-- 
2.43.0


From 8bb21a9b1865dbc972f2661380b4a5299d26af3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:00 +0000
Subject: [PATCH 30/54] fix: keep # and quotes inside of the strings of a
 config.gypi

A string with a number sign, or with a quote of the other kind, made the
configuration of the selected node unreadable, and the one of the running
node was used instead.
---
 lib/create-config-gypi.js | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/create-config-gypi.js b/lib/create-config-gypi.js
index 0b35cf9..fd0c39e 100644
--- a/lib/create-config-gypi.js
+++ b/lib/create-config-gypi.js
@@ -6,12 +6,16 @@ const path = require('path')
 
 function parseConfigGypi (config) {
   // translated from tools/js2c.py of Node.js
-  // 1. string comments
-  config = config.replace(/#.*/g, '')
+  // 1. strip comments and normalize string literals from ' into "
+  //    (# and quotes inside of string literals belong to the string)
+  config = config.replace(/#.*|'((?:\\.|[^'\\])*)'|"(?:\\.|[^"\\])*"/g, (token, str) => {
+    if (str === undefined) {
+      return token.startsWith('#') ? '' : token
+    }
+    return '"' + str.replace(/\\'/g, "'").replace(/\\.|"/g, (c) => c === '"' ? '\\"' : c) + '"'
+  })
   // 2. join multiline strings
-  config = config.replace(/'$\s+'/mg, '')
-  // 3. normalize string literals from ' into "
-  config = config.replace(/'/g, '"')
+  config = config.replace(/"$\s+"/mg, '')
   return JSON.parse(config)
 }
 
-- 
2.43.0


From cb42bc9f7a0ad829a09af4253a5033cff91428fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 31/54] fix: do not add a generator when --format=NAME selects
 one

Only -f and --format as words of their own were recognised, so the default
generator was run as well, and its files were used.
---
 lib/configure.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/configure.js b/lib/configure.js
index ee672cf..66b082d 100644
--- a/lib/configure.js
+++ b/lib/configure.js
@@ -149,7 +149,7 @@ async function configure (gyp, argv) {
   }
 
   async function runGyp () {
-    if (!~argv.indexOf('-f') && !~argv.indexOf('--format')) {
+    if (!argv.some((arg) => arg === '-f' || arg === '--format' || arg.startsWith('--format='))) {
       if (win) {
         log.verbose('gyp', 'gyp format was not specified; forcing "msvs"')
         // force the 'make' target for non-Windows
-- 
2.43.0


From 5aa8b95712727d4330e02c779e22f1bc111973b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 32/54] fix: pass targets to make as they are on Windows

The targets were turned into /t: options of MSBuild even when the project was
generated for make.
---
 lib/build.js | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/lib/build.js b/lib/build.js
index ae38d22..d22b135 100644
--- a/lib/build.js
+++ b/lib/build.js
@@ -16,10 +16,6 @@ async function build (gyp, argv) {
     platformMake = 'gmake'
   } else if (process.platform.indexOf('bsd') !== -1) {
     platformMake = 'gmake'
-  } else if (win && argv.length > 0) {
-    argv = argv.map(function (target) {
-      return '/t:' + target
-    })
   }
 
   const makeCommand = gyp.opts.make || process.env.MAKE || platformMake
@@ -131,6 +127,12 @@ async function build (gyp, argv) {
     const verbose = log.logger.isVisible('verbose')
     let j
 
+    if (msvs) {
+      argv = argv.map(function (target) {
+        return '/t:' + target
+      })
+    }
+
     if (!msvs && verbose) {
       argv.push('V=1')
     }
-- 
2.43.0


From 814d272160df6785e4d1919697bb78b67ca1066e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:28:16 +0000
Subject: [PATCH 33/54] fix: pass a solution given to build on to MSBuild

It was turned into the name of a target, and no solution was given at all.
---
 lib/build.js | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/build.js b/lib/build.js
index d22b135..9fbd6d1 100644
--- a/lib/build.js
+++ b/lib/build.js
@@ -129,7 +129,7 @@ async function build (gyp, argv) {
 
     if (msvs) {
       argv = argv.map(function (target) {
-        return '/t:' + target
+        return path.extname(target) === '.sln' ? target : '/t:' + target
       })
     }
 
-- 
2.43.0


From b5dfbfbb601c0ea8a32594058d3c6aca073f16f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:23:06 +0000
Subject: [PATCH 34/54] fix: an apostrophe in a path given to PowerShell

Inside a single-quoted PowerShell string an apostrophe has to be doubled.
---
 lib/find-visualstudio.js | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/find-visualstudio.js b/lib/find-visualstudio.js
index e9aa7fa..71a56d5 100644
--- a/lib/find-visualstudio.js
+++ b/lib/find-visualstudio.js
@@ -191,7 +191,7 @@ class VisualStudioFinder {
       this.log.silly('VSSetup error = %j', cErr && (cErr.stack || cErr))
       return null
     }
-    const filterArg = vcInstallDir !== undefined ? `| where {$_.InstallationPath -eq '${vcInstallDir}' }` : ''
+    const filterArg = vcInstallDir !== undefined ? `| where {$_.InstallationPath -eq '${vcInstallDir.replace(/'/g, "''")}' }` : ''
     const psArgs = [
       '-NoProfile',
       '-Command',
@@ -247,7 +247,7 @@ class VisualStudioFinder {
       'Unrestricted',
       '-NoProfile',
       '-Command',
-      '&{Add-Type -Path \'' + csFile + '\';' + '[VisualStudioConfiguration.Main]::PrintJson()}'
+      '&{Add-Type -Path \'' + csFile.replace(/'/g, "''") + '\';' + '[VisualStudioConfiguration.Main]::PrintJson()}'
     ]
 
     this.log.silly('Running', ps, psArgs)
-- 
2.43.0


From 7ecd57d59bc491a622a86cbc879cb2cb4e9ce953 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:19:55 +0000
Subject: [PATCH 35/54] fix: resolve .. in sources of build files outside of
 the tree

---
 gyp/pylib/gyp/generator/analyzer.py | 15 ++-------------
 1 file changed, 2 insertions(+), 13 deletions(-)

diff --git a/gyp/pylib/gyp/generator/analyzer.py b/gyp/pylib/gyp/generator/analyzer.py
index ffc278a..4376258 100644
--- a/gyp/pylib/gyp/generator/analyzer.py
+++ b/gyp/pylib/gyp/generator/analyzer.py
@@ -131,21 +131,10 @@ def _ResolveParent(path, base_path_components):
     """Resolves |path|, which starts with at least one '../'. Returns an empty
   string if the path shouldn't be considered. See _AddSources() for a
   description of |base_path_components|."""
-    depth = 0
-    while path.startswith("../"):
-        depth += 1
-        path = path[3:]
+    path = posixpath.normpath("/".join(base_path_components + [path]))
     # Relative includes may go outside the source tree. For example, an action may
     # have inputs in /usr/include, which are not in the source tree.
-    if depth > len(base_path_components):
-        return ""
-    if depth == len(base_path_components):
-        return path
-    return (
-        "/".join(base_path_components[0 : len(base_path_components) - depth])
-        + "/"
-        + path
-    )
+    return "" if path.startswith("../") else path
 
 
 def _AddSources(sources, base_path, base_path_components, result):
-- 
2.43.0


From 282bb96664e1ae1f66bada6bd77467afa7272e17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:04:25 +0000
Subject: [PATCH 36/54] fix: report a build file that ends its worker instead
 of waiting for it

---
 gyp/pylib/gyp/input.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/input.py b/gyp/pylib/gyp/input.py
index c53495c..61d1b1e 100644
--- a/gyp/pylib/gyp/input.py
+++ b/gyp/pylib/gyp/input.py
@@ -550,7 +550,8 @@ def CallLoadTargetBuildFile(
     except GypError as e:
         sys.stderr.write("gyp: %s\n" % e)
         return None
-    except Exception as e:
+    except (Exception, SystemExit) as e:
+        # A worker that exits never answers and the main process waits forever.
         print("Exception:", e, file=sys.stderr)
         print(traceback.format_exc(), file=sys.stderr)
         return None
-- 
2.43.0


From 33b6e5484f67d9db0d5ad8535ec2f01e586972a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:19 +0000
Subject: [PATCH 37/54] fix: keep naming the same --config-dir when
 regenerating from another directory

---
 gyp/pylib/gyp/__init__.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gyp/pylib/gyp/__init__.py b/gyp/pylib/gyp/__init__.py
index 8933d0c..f883333 100755
--- a/gyp/pylib/gyp/__init__.py
+++ b/gyp/pylib/gyp/__init__.py
@@ -361,6 +361,7 @@ def gyp_main(args):
         action="store",
         env_name="GYP_CONFIG_DIR",
         default=None,
+        type="path",
         help="The location for configuration files like " "include.gypi.",
     )
     parser.add_argument(
@@ -502,6 +503,7 @@ def gyp_main(args):
             home_dot_gyp = os.environ.get("GYP_CONFIG_DIR", None)
             if home_dot_gyp:
                 home_dot_gyp = os.path.expanduser(home_dot_gyp)
+                options.config_dir = home_dot_gyp
 
         if not home_dot_gyp:
             home_vars = ["HOME"]
@@ -517,6 +519,7 @@ def gyp_main(args):
                         break
     else:
         home_dot_gyp = os.path.expanduser(options.config_dir)
+        options.config_dir = home_dot_gyp
 
     if home_dot_gyp and not os.path.exists(home_dot_gyp):
         home_dot_gyp = None
-- 
2.43.0


From 72f55580c7a9100b544c7280d61fe4c3f64cb8bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:37:52 +0000
Subject: [PATCH 38/54] fix: msvs: exclude a source in some configurations
 without raising an error

---
 gyp/pylib/gyp/generator/msvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index 9137a3f..ccdcd1a 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -3576,7 +3576,7 @@ def _AddSources2(
                 else:
                     for config_name, configuration in sorted(excluded_configurations):
                         condition = _GetConfigurationCondition(
-                            config_name, configuration
+                            config_name, configuration, spec
                         )
                         detail.append(
                             ["ExcludedFromBuild", {"Condition": condition}, "true"]
-- 
2.43.0


From 052b39639fc4dab6a43d744cc07c53dc7cf8101c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:10 +0000
Subject: [PATCH 39/54] fix: msvs: keep an extension of one configuration to
 that configuration

---
 gyp/pylib/gyp/generator/msvs.py | 5 -----
 1 file changed, 5 deletions(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index ccdcd1a..9d766db 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -3214,11 +3214,6 @@ def _GetMSBuildConfigurationGlobalProperties(spec, configurations, build_file):
         _AddConditionalProperty(
             properties, condition, "TargetName", attributes["TargetName"]
         )
-        if "TargetExt" in attributes:
-            _AddConditionalProperty(
-                properties, condition, "TargetExt", attributes["TargetExt"]
-            )
-
         if attributes.get("TargetPath"):
             _AddConditionalProperty(
                 properties, condition, "TargetPath", attributes["TargetPath"]
-- 
2.43.0


From 5348e4a168d807a0f2c6459f0ab2f325047b9a2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:10 +0000
Subject: [PATCH 40/54] fix: msvs: add the path prefix to an output directory
 only once

---
 gyp/pylib/gyp/generator/msvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index 9d766db..e4c0a16 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -3136,7 +3136,7 @@ def _GetMSBuildAttributes(spec, config, build_file):
     else:
         config_type = _GetMSVSConfigurationType(spec, build_file)
         config_type = _ConvertMSVSConfigurationType(config_type)
-        msbuild_attributes = config.get("msbuild_configuration_attributes", {})
+        msbuild_attributes = config["msbuild_configuration_attributes"].copy()
         msbuild_attributes.setdefault("ConfigurationType", config_type)
         output_dir = msbuild_attributes.get(
             "OutputDirectory", "$(SolutionDir)$(Configuration)"
-- 
2.43.0


From 1489ad7815794920de2657154056b3810f13dbeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:38:10 +0000
Subject: [PATCH 41/54] fix: msvs: name configurations in projects as in the
 solution

---
 gyp/pylib/gyp/generator/msvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index e4c0a16..af8eecc 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -2897,8 +2897,8 @@ def _GenerateMSBuildRuleXmlFile(xml_path, msbuild_rules):
 
 
 def _GetConfigurationAndPlatform(name, settings, spec):
-    configuration = name.rsplit("_", 1)[0]
     platform = settings.get("msvs_configuration_platform", "Win32")
+    configuration = _ConfigBaseName(name, platform)
     if spec["toolset"] == "host" and platform == "arm64":
         platform = "x64"  # Host-only tools are always built for x64
     return (configuration, platform)
-- 
2.43.0


From 5f258357e53685ba84e15a9491e6320eaa017dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 42/54] fix: msvs: run a rule on an action's input when the
 output is generated elsewhere

---
 gyp/pylib/gyp/generator/msvs.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index af8eecc..d55034b 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -933,7 +933,7 @@ def _AdjustSourcesForRules(rules, sources, excluded_sources, is_msbuild):
             # Remove trigger_file from excluded_sources to let the rule be triggered
             # (e.g. rule trigger ax_enums.idl is added to excluded_sources
             # because it's also in an action's inputs in the same project)
-            excluded_sources.discard(_FixPath(trigger_file))
+            excluded_sources.discard(_NormalizedSource(trigger_file))
             # Done if not processing outputs as sources.
             if int(rule.get("process_outputs_as_sources", False)):
                 inputs, outputs = _RuleInputsAndOutputs(rule, trigger_file)
-- 
2.43.0


From 1591e383eedc3ebb351764c55a5542badb66e947 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:42:40 +0000
Subject: [PATCH 43/54] fix: msvs: add the path prefix to the outputs of a rule
 only once

---
 gyp/pylib/gyp/generator/msvs.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index d55034b..f6bc1fc 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -936,10 +936,15 @@ def _AdjustSourcesForRules(rules, sources, excluded_sources, is_msbuild):
             excluded_sources.discard(_NormalizedSource(trigger_file))
             # Done if not processing outputs as sources.
             if int(rule.get("process_outputs_as_sources", False)):
-                inputs, outputs = _RuleInputsAndOutputs(rule, trigger_file)
-                inputs = OrderedSet(_FixPaths(inputs))
-                outputs = OrderedSet(_FixPaths(outputs))
-                inputs.remove(_FixPath(trigger_file))
+                # The paths are fixed later, together with those of all other sources.
+                inputs, outputs = (
+                    OrderedSet(
+                        _NormalizedSource(_RuleExpandPath(i, trigger_file))
+                        for i in rule.get(key, [])
+                    )
+                    for key in ("inputs", "outputs")
+                )
+                inputs.discard(_NormalizedSource(trigger_file))
                 sources.update(inputs)
                 if not is_msbuild:
                     excluded_sources.update(inputs)
-- 
2.43.0


From 21c29618d452890f8081f892c4fabfeebd499df7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:02:39 +0000
Subject: [PATCH 44/54] fix: msvs: do not fail on an excluded file that is not
 listed

---
 gyp/pylib/gyp/generator/msvs.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/generator/msvs.py b/gyp/pylib/gyp/generator/msvs.py
index f6bc1fc..2a80ce7 100644
--- a/gyp/pylib/gyp/generator/msvs.py
+++ b/gyp/pylib/gyp/generator/msvs.py
@@ -241,8 +241,10 @@ def _ConvertSourcesToFilterHierarchy(
                 list_excluded=list_excluded,
                 msvs_version=msvs_version,
             )
-            contents = MSVSProject.Filter(s[0], contents=contents)
-            result.append(contents)
+            # An excluded file that is not listed leaves nothing to put in the folder.
+            if contents:
+                contents = MSVSProject.Filter(s[0], contents=contents)
+                result.append(contents)
     # Add a folder for excluded files.
     if excluded_result and list_excluded:
         excluded_folder = MSVSProject.Filter(
-- 
2.43.0


From 4a9528fee035c3a5cda57d6e2d2f77215ed8e563 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:42 +0000
Subject: [PATCH 45/54] fix: mac: leave settings of only some configurations
 out of the per-target settings

---
 gyp/pylib/gyp/xcode_emulation.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/gyp/pylib/gyp/xcode_emulation.py b/gyp/pylib/gyp/xcode_emulation.py
index aee1a54..e97afa7 100644
--- a/gyp/pylib/gyp/xcode_emulation.py
+++ b/gyp/pylib/gyp/xcode_emulation.py
@@ -1026,10 +1026,9 @@ class XcodeSettings:
                 result = dict(self.xcode_settings[configname])
                 first_pass = False
             else:
-                for key, value in self.xcode_settings[configname].items():
-                    if key not in result:
-                        continue
-                    elif result[key] != value:
+                settings = self.xcode_settings[configname]
+                for key in list(result):
+                    if key not in settings or result[key] != settings[key]:
                         del result[key]
         return result
 
-- 
2.43.0


From c15f7c7a40df23ea6f7785517459d047c0eb1ffe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:42 +0000
Subject: [PATCH 46/54] fix: mac: accept numbers in xcode_settings

---
 gyp/pylib/gyp/xcode_emulation.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/gyp/pylib/gyp/xcode_emulation.py b/gyp/pylib/gyp/xcode_emulation.py
index e97afa7..1c78833 100644
--- a/gyp/pylib/gyp/xcode_emulation.py
+++ b/gyp/pylib/gyp/xcode_emulation.py
@@ -257,7 +257,7 @@ class XcodeSettings:
         """Returns the framework version of the current target. Only valid for
     bundles."""
         assert self._IsBundle()
-        return self.GetPerTargetSetting("FRAMEWORK_VERSION", default="A")
+        return str(self.GetPerTargetSetting("FRAMEWORK_VERSION", default="A"))
 
     def GetWrapperExtension(self):
         """Returns the bundle extension (.app, .framework, .plugin, etc).  Only
@@ -1287,7 +1287,7 @@ class XcodeSettings:
 
     def _XcodeIOSDeviceFamily(self, configname):
         family = self.xcode_settings[configname].get("TARGETED_DEVICE_FAMILY", "1")
-        return [int(x) for x in family.split(",")]
+        return [int(x) for x in str(family).split(",")]
 
     def GetExtraPlistItems(self, configname=None):
         """Returns a dictionary with extra items to insert into Info.plist."""
@@ -1808,8 +1808,10 @@ def _GetXcodeEnv(
     else:
         # Flatten lists to strings.
         for k in additional_settings:
-            if not isinstance(additional_settings[k], str):
-                additional_settings[k] = " ".join(additional_settings[k])
+            if isinstance(additional_settings[k], list):
+                additional_settings[k] = " ".join(map(str, additional_settings[k]))
+            else:
+                additional_settings[k] = str(additional_settings[k])
     additional_settings.update(env)
 
     for k in additional_settings:
-- 
2.43.0


From 4e84b38263dc92bcf86384464cd7e6e2275ae458 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:42 +0000
Subject: [PATCH 47/54] fix: mac: read the code signing identities as text

---
 gyp/pylib/gyp/xcode_emulation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/xcode_emulation.py b/gyp/pylib/gyp/xcode_emulation.py
index 1c78833..fe6dd8a 100644
--- a/gyp/pylib/gyp/xcode_emulation.py
+++ b/gyp/pylib/gyp/xcode_emulation.py
@@ -1226,7 +1226,7 @@ class XcodeSettings:
         if identity not in XcodeSettings._codesigning_key_cache:
             output = subprocess.check_output(
                 ["security", "find-identity", "-p", "codesigning", "-v"]
-            )
+            ).decode("utf-8")
             for line in output.splitlines():
                 if identity in line:
                     fingerprint = line.split()[1]
-- 
2.43.0


From ca6f733aad56cb4cc51bebb840d2e13bef28c016 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:42 +0000
Subject: [PATCH 48/54] fix: mac: expand only whole names of variables

---
 gyp/pylib/gyp/xcode_emulation.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/xcode_emulation.py b/gyp/pylib/gyp/xcode_emulation.py
index fe6dd8a..dafbb64 100644
--- a/gyp/pylib/gyp/xcode_emulation.py
+++ b/gyp/pylib/gyp/xcode_emulation.py
@@ -1845,7 +1845,9 @@ def ExpandEnvVars(string, expansions):
     for k, v in reversed(expansions):
         string = string.replace("${" + k + "}", v)
         string = string.replace("$(" + k + ")", v)
-        string = string.replace("$" + k, v)
+        string = re.sub(
+            r"\$" + re.escape(k) + r"(?![a-zA-Z0-9_])", lambda m: v, string
+        )
     return string
 
 
-- 
2.43.0


From dd76cbc87d623c71c9ea062726248f6bd7831e1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:42 +0000
Subject: [PATCH 49/54] fix: ios: add device configurations to targets without
 xcode_settings

---
 gyp/pylib/gyp/xcode_emulation.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/xcode_emulation.py b/gyp/pylib/gyp/xcode_emulation.py
index dafbb64..bab4f95 100644
--- a/gyp/pylib/gyp/xcode_emulation.py
+++ b/gyp/pylib/gyp/xcode_emulation.py
@@ -1931,8 +1931,11 @@ def _AddIOSDeviceConfigurations(targets):
             configs[config_name + "-iphoneos"] = iphoneos_config_dict
             configs[config_name + "-iphonesimulator"] = simulator_config_dict
             if toolset == "target":
-                simulator_config_dict["xcode_settings"]["SDKROOT"] = "iphonesimulator"
-                iphoneos_config_dict["xcode_settings"]["SDKROOT"] = "iphoneos"
+                for config_dict, sdkroot in (
+                    (simulator_config_dict, "iphonesimulator"),
+                    (iphoneos_config_dict, "iphoneos"),
+                ):
+                    config_dict.setdefault("xcode_settings", {})["SDKROOT"] = sdkroot
     return targets
 
 
-- 
2.43.0


From d466748b4211e0e86504ab53559479a8f566b2d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:59 +0000
Subject: [PATCH 50/54] fix: mac: do not share Info.plist entries between
 targets with other settings

---
 gyp/pylib/gyp/xcode_emulation.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/gyp/pylib/gyp/xcode_emulation.py b/gyp/pylib/gyp/xcode_emulation.py
index bab4f95..6419f89 100644
--- a/gyp/pylib/gyp/xcode_emulation.py
+++ b/gyp/pylib/gyp/xcode_emulation.py
@@ -1291,7 +1291,15 @@ class XcodeSettings:
 
     def GetExtraPlistItems(self, configname=None):
         """Returns a dictionary with extra items to insert into Info.plist."""
-        if configname not in XcodeSettings._plist_cache:
+        settings = self.xcode_settings[configname]
+        cache_key = (
+            configname,
+            self.isIOS,
+            settings.get("SDKROOT"),
+            settings.get("GCC_VERSION"),
+            settings.get("IPHONEOS_DEPLOYMENT_TARGET"),
+        )
+        if cache_key not in XcodeSettings._plist_cache:
             cache = {}
             cache["BuildMachineOSBuild"] = self._BuildMachineOSBuild()
 
@@ -1331,11 +1339,11 @@ class XcodeSettings:
                     # This is weird, but Xcode sets DTPlatformBuild to an empty field
                     # for simulator builds.
                     cache["DTPlatformBuild"] = ""
-            XcodeSettings._plist_cache[configname] = cache
+            XcodeSettings._plist_cache[cache_key] = cache
 
         # Include extra plist items that are per-target, not per global
         # XcodeSettings.
-        items = dict(XcodeSettings._plist_cache[configname])
+        items = dict(XcodeSettings._plist_cache[cache_key])
         if self.isIOS:
             items["UIDeviceFamily"] = self._XcodeIOSDeviceFamily(configname)
         return items
-- 
2.43.0


From b407b795ce7535feaefea3698a9b28bb3ef2358a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:21:59 +0000
Subject: [PATCH 51/54] fix: mac: keep the prefix of an install name base with
 two slashes

---
 gyp/pylib/gyp/xcode_emulation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/gyp/pylib/gyp/xcode_emulation.py b/gyp/pylib/gyp/xcode_emulation.py
index 6419f89..2145a5e 100644
--- a/gyp/pylib/gyp/xcode_emulation.py
+++ b/gyp/pylib/gyp/xcode_emulation.py
@@ -810,6 +810,7 @@ class XcodeSettings:
             prefix, rest = "", path
             if path.startswith("@"):
                 prefix, rest = path.split("/", 1)
+                rest = rest.lstrip("/")
             rest = os.path.normpath(rest)  # :standardizepath
             path = os.path.join(prefix, rest)
         return path
-- 
2.43.0


From 5e1c531236f833da3977c810aedf5784280245e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:51 +0000
Subject: [PATCH 52/54] fix: xcode: quote strings that end in a new line or
 contain //

---
 gyp/pylib/gyp/xcodeproj_file.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/gyp/pylib/gyp/xcodeproj_file.py b/gyp/pylib/gyp/xcodeproj_file.py
index cd72aa2..960cd94 100644
--- a/gyp/pylib/gyp/xcodeproj_file.py
+++ b/gyp/pylib/gyp/xcodeproj_file.py
@@ -157,11 +157,12 @@ def cmp(x, y):
 # transformed to be properly encoded.  Note that this expression matches the
 # characters listed with "+", for 1 or more occurrences: if a string is empty,
 # it must not match this pattern, because it needs to be encoded as "".
-_unquoted = re.compile("^[A-Za-z0-9$./_]+$")
+_unquoted = re.compile(r"^[A-Za-z0-9$./_]+\Z")
 
 # Strings that match this pattern are quoted regardless of what _unquoted says.
 # Oddly, Xcode will quote any string with a run of three or more underscores.
-_quoted = re.compile("___")
+# A string that contains // could be read as a comment.
+_quoted = re.compile("___|//")
 
 # This pattern should match any character that needs to be escaped by
 # XCObject._EncodeString.  See that function.
-- 
2.43.0


From 8defa73724e0214902133c35e6552d2096da0201 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:51 +0000
Subject: [PATCH 53/54] fix: xcode: accept a directory that is listed twice

---
 gyp/pylib/gyp/xcodeproj_file.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/gyp/pylib/gyp/xcodeproj_file.py b/gyp/pylib/gyp/xcodeproj_file.py
index 960cd94..77e8308 100644
--- a/gyp/pylib/gyp/xcodeproj_file.py
+++ b/gyp/pylib/gyp/xcodeproj_file.py
@@ -1336,7 +1336,8 @@ class PBXGroup(XCHierarchicalElement):
             # this PBXGroup, no recursion necessary.
             if variant_name is None:
                 # Add or get a PBXFileReference.
-                file_ref = self.GetChildByPath(path)
+                # References to directories are kept without the trailing slash.
+                file_ref = self.GetChildByPath(path[:-1] if is_dir else path)
                 if file_ref is not None:
                     assert file_ref.__class__ == PBXFileReference
                 else:
-- 
2.43.0


From 5415380a901a8657db469d89b3947b543283d20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:20:51 +0000
Subject: [PATCH 54/54] fix: xcode: keep the root directory of absolute paths

---
 gyp/pylib/gyp/xcodeproj_file.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/gyp/pylib/gyp/xcodeproj_file.py b/gyp/pylib/gyp/xcodeproj_file.py
index 77e8308..2611610 100644
--- a/gyp/pylib/gyp/xcodeproj_file.py
+++ b/gyp/pylib/gyp/xcodeproj_file.py
@@ -1327,6 +1327,9 @@ class PBXGroup(XCHierarchicalElement):
         assert not is_dir or variant_name is None
 
         path_split = path.split(posixpath.sep)
+        if path_split[0] == "" and len(path_split) > 1:
+            # Keep the root directory in the first component of an absolute path.
+            path_split[0:2] = [posixpath.sep + path_split[1]]
         if (
             len(path_split) == 1
             or ((is_dir or variant_name is not None) and len(path_split) == 2)
-- 
2.43.0

