From 6e4b9afacbf0d0642b13cdf7dfcf9cfdff60087c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:33 +0000
Subject: [PATCH 01/33] fix: win_split keeps trailing backslashes and empty
 quoted arguments

---
 iwyu_tool.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index 18cf5ff..528f14c 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -161,6 +161,7 @@ def win_split(cmdline):
     """
     def split_iter(cmdline):
         in_quotes = False
+        quoted = False  # arg contains a quoted part, possibly an empty one.
         backslashes = 0
         arg = ''
         for c in cmdline:
@@ -181,15 +182,18 @@ def win_split(cmdline):
                     arg += c
                 else:
                     in_quotes = not in_quotes
+                    quoted = True
                 backslashes = 0
             elif c in (' ', '\t') and not in_quotes:
                 # MSDN: Arguments are delimited by white space, which is either
                 # a space or a tab [but only outside of a string].
-                # Flush any buffered backslashes and yield arg, unless empty.
+                # Flush any buffered backslashes and yield arg, unless empty
+                # (an explicitly quoted empty arg counts).
                 arg += '\\' * backslashes
-                if arg:
+                if arg or quoted:
                     yield arg
                     arg = ''
+                    quoted = False
                 backslashes = 0
             else:
                 # Flush buffered backslashes and append.
@@ -197,8 +201,8 @@ def win_split(cmdline):
                 arg += c
                 backslashes = 0
 
-        if arg:
-            arg += '\\' * backslashes
+        arg += '\\' * backslashes
+        if arg or quoted:
             yield arg
 
     return list(split_iter(cmdline))
-- 
2.43.0


From 1b320f7d7394cc374a318c78ccc6aef4e8376bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:11:05 +0000
Subject: [PATCH 02/33] fix: clang formatter accepts removals without line
 numbers

---
 iwyu_tool.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/iwyu_tool.py b/iwyu_tool.py
index 528f14c..5b97581 100755
--- a/iwyu_tool.py
+++ b/iwyu_tool.py
@@ -94,9 +94,14 @@ def clang_formatter(output, style):
                                  (state[1], style, line))
         elif state[0] == REMOVE:
             match = LINES_RE.match(line)
-            line_no = match.group(2) if match else '1'
+            if match:
+                text, line_no = match.groups()
+            else:
+                # There are no line numbers with --no_comments.
+                text = line[2:] if line.startswith('- ') else line
+                line_no = '1'
             formatted.append("%s:%s:1: %s: superfluous '%s'" %
-                             (state[1], line_no, style, match.group(1)))
+                             (state[1], line_no, style, text))
 
     return os.linesep.join(formatted)
 
-- 
2.43.0


From ccc387a6361a558ed3ef874526bfbe3eca88f808 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:04 +0000
Subject: [PATCH 03/33] fix: include line numbers past the end of the file are
 refused, not a crash

---
 fix_includes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index 534a9d1..0de9c11 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -765,6 +765,9 @@ def _CalculateLineTypesAndKeys(file_lines, iwyu_record):
 
   # Now double-check against iwyu that we got all the #include lines right.
   for line_number in iwyu_record.some_include_lines:
+    if line_number >= len(file_lines):
+      raise FixIncludesError('iwyu line number %s:%d is past file-end'
+                             % (iwyu_record.filename, line_number))
     if file_lines[line_number].type != _INCLUDE_RE:
       raise FixIncludesError('iwyu line number %s:%d (%s) is not an #include'
                              % (iwyu_record.filename, line_number,
-- 
2.43.0


From 713f87a96316cb965040e2a66f0c12f6615cf04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:41:59 +0000
Subject: [PATCH 04/33] fix: an #if already deleted no longer pairs with the
 enclosing #endif

---
 fix_includes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 0de9c11..393a2c8 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1100,7 +1100,8 @@ def _DeleteEmptyIfdefs(file_lines):
   num_ifdefs_deleted = 0
   start_line = 0
   while start_line < len(file_lines):
-    if file_lines[start_line].type not in (_IF_RE, _HEADER_GUARD_RE):
+    if (file_lines[start_line].deleted or
+        file_lines[start_line].type not in (_IF_RE, _HEADER_GUARD_RE)):
       start_line += 1
       continue
     end_line = start_line + 1
-- 
2.43.0


From 28344f66cc32a3483d9e7e662157c19bf2649e37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:20 +0000
Subject: [PATCH 05/33] fix: a new forward declaration goes before code that
 precedes the first block, as documented

---
 fix_includes.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index 393a2c8..425e921 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1756,6 +1756,13 @@ def _FirstReorderSpanWith(file_lines, good_reorder_spans, kind, filename,
     else:
       first_contentful_line = 0
 
+  # There may also be contentful code before the first 'good' span.
+  for i in range(first_contentful_line):
+    if not file_lines[i].deleted and file_lines[i].line is not None and (
+        file_lines[i].type is None):
+      first_contentful_line = i
+      break
+
   # Let's just find the first and last span for each kind.
   first_reorder_spans = {}
   last_reorder_spans = {}
-- 
2.43.0


From 60cc5d3020b60f54f33844e0d2004e0547053576 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:05 +0000
Subject: [PATCH 06/33] fix: only real line ends split a file into lines

splitlines() also splits at form feeds, file separators, NEL and unicode
line separators, so every later line number of the report named the wrong
line.
---
 fix_includes.py | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index 425e921..b9922db 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -588,12 +588,14 @@ def _ReadFile(filename, fileinfo):
   try:
     with open(filename, 'rb') as f:
       content = f.read()
-      # Call splitlines with True to keep the original line
-      # endings.  Later in WriteFile, they will be used as-is.
-      # This will reduce spurious changes to the original files.
-      # The lines we add will have the linesep determined by
-      # FileInfo.
-      return content.decode(fileinfo.encoding).splitlines(True)
+      # Keep the original line endings.  Later in WriteFile, they will
+      # be used as-is.  This will reduce spurious changes to the
+      # original files.  The lines we add will have the linesep
+      # determined by FileInfo.
+      # Do not use splitlines here: it also splits at form feeds, unicode
+      # separators and more, none of which ends a line for the compiler.
+      return re.findall('[^\r\n]*(?:\r\n|\r|\n)|[^\r\n]+',
+                        content.decode(fileinfo.encoding))
   except (IOError, OSError) as why:
     print("Skipping '%s': %s" % (filename, why))
   return None
-- 
2.43.0


From 421f3eeb87a52b30e666d67007943d8c8463a629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:05 +0000
Subject: [PATCH 07/33] fix: a file in no guessed encoding is read as latin-1
 instead of crashing

---
 fix_includes.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index b9922db..c88c814 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -575,7 +575,8 @@ class FileInfo(object):
       if try_decode(bytebuf, 'utf-8-sig'):
         return 'utf-8-sig'
 
-    encodings = ['ascii', 'utf-8', 'windows-1250', 'windows-1252']
+    # latin-1 can decode anything, so it goes last.
+    encodings = ['ascii', 'utf-8', 'windows-1250', 'windows-1252', 'latin-1']
     for encoding in encodings:
       if try_decode(bytebuf, encoding):
         return encoding
-- 
2.43.0


From bed8d9c2cc7d7ddbc61042b17b5aa121f60e557c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:00:06 +0000
Subject: [PATCH 08/33] fix: one unreadable or unwritable file no longer spoils
 the run

An unreadable file ended the run with an exception, a file that could not be
encoded was emptied, and a failed write counted as a fixed file.
---
 fix_includes.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index c88c814..6d7bc2c 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -605,13 +605,14 @@ def _ReadFile(filename, fileinfo):
 def _WriteFile(filename, fileinfo, file_lines):
   """Write the given file-lines to the file."""
   try:
+    # file_lines already have line endings, so join with ''.
+    # Encode before opening, because opening empties the file.
+    content = ''.join(file_lines)
+    content = content.encode(fileinfo.encoding)
     with open(filename, 'wb') as f:
-      # file_lines already have line endings, so join with ''.
-      content = ''.join(file_lines)
-      content = content.encode(fileinfo.encoding)
       f.write(content)
-  except (IOError, OSError) as why:
-    print("Error writing '%s': %s" % (filename, why))
+  except (IOError, OSError, UnicodeError) as why:
+    raise FixIncludesError("Error writing '%s': %s" % (filename, why))
 
 
 def PrintFileDiff(old_file_contents, new_file_contents):
@@ -2284,6 +2285,8 @@ def FixManyFiles(iwyu_records, flags):
       files_fixed += 1
     except FixIncludesError as why:
       print('ERROR: %s - skipping file %s' % (why, iwyu_record.filename))
+    except (IOError, OSError) as why:
+      print("Skipping '%s': %s" % (iwyu_record.filename, why))
 
   print('IWYU edited %d files on your behalf.\n' % files_fixed)
   return files_fixed
-- 
2.43.0


From 8765d627493b9e65f30c17b3bfb3e1e6ac29f9a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:53 +0000
Subject: [PATCH 09/33] fix: only iwyu's own namespace lines are spread over
 several lines

A comment that mentions 'namespace a { class B; }' became code, and a comment
after such a line was lost.
---
 fix_includes.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fix_includes.py b/fix_includes.py
index 6d7bc2c..ea1c1f4 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2029,12 +2029,16 @@ def _NormalizeNamespaceForwardDeclareLines(lines):
   # iwyu input is very regular, which is nice.
   iwyu_namespace_re = re.compile(r'namespace ([^{]*) { ')
   iwyu_classname_re = re.compile(r'{ ([^{}]*) }')
+  # Comments, and lines with something after the last }, are not iwyu's.
+  iwyu_line_re = re.compile(r'(namespace [^{}/]*{ )+[^{}]*( })+\s*$')
 
   retval = []
   current_namespaces = []
   # We append a blank line so the final namespace-closing happens "organically".
   for line in lines + ['']:
-    namespaces_in_line = iwyu_namespace_re.findall(line)
+    namespaces_in_line = []
+    if iwyu_line_re.match(line):
+      namespaces_in_line = iwyu_namespace_re.findall(line)
     differ_pos = _CommonPrefixLength(namespaces_in_line, current_namespaces)
     namespaces_to_close = reversed(current_namespaces[differ_pos:])
     namespaces_to_open = namespaces_in_line[differ_pos:]
-- 
2.43.0


From 4de3ccad0a6d3d036a910386e57d6824c08b0465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:54 +0000
Subject: [PATCH 10/33] fix: a namespace opened by a macro is not taken for the
 one around it

---
 fix_includes.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index ea1c1f4..83c78c8 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1462,7 +1462,11 @@ def _GetNamespaceLevelReorderSpans(file_lines):
       # forward declare that wasn't able to have a proper namespace name found
       # will still propagate to the top of the file.
       elif line_info.type == _NAMESPACE_START_RE:
-        for namespace in _GetNamespaceNames(line_info.line):
+        namespaces = _GetNamespaceNames(line_info.line)
+        if not namespaces:
+          # A macro opens the namespace: nothing we add can name it.
+          namespace_prefixes.append(line_info.line.strip())
+        for namespace in namespaces:
           if not namespace:
             namespace_prefixes.append('namespace {')
           else:
@@ -1515,7 +1519,9 @@ def _GetNamespaceLevelReorderSpans(file_lines):
 
       elif line_info.type == _NAMESPACE_END_RE:
         # Remove C++ comments and count the ending brackets.
-        namespace_end_count = line_info.line.split("/")[0].count("}")
+        # A macro has no bracket, but ends one namespace.
+        namespace_end_count = max(
+          line_info.line.split("/")[0].count("}"), 1)
         namespace_prefixes = namespace_prefixes[:-namespace_end_count]
 
       elif line_info.type == _FORWARD_DECLARE_RE:
-- 
2.43.0


From 423e7da9d979bba8cee4fa42a08a87dbc003db99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:02 +0000
Subject: [PATCH 11/33] fix: opaque enums with the same underlying type are
 different declarations

---
 fix_includes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/fix_includes.py b/fix_includes.py
index 83c78c8..a07d224 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -2101,6 +2101,8 @@ def _GetSymbolNameFromForwardDeclareLine(line):
   """
   iwyu_namespace_re = re.compile(r'namespace ([^{]*) { ')
   symbolname_re = re.compile(r'([A-Za-z0-9_]+)')
+  # The underlying type of an enum is not part of its name.
+  line = re.sub(r'(\benum\b[^:]*) : [^;]*;', r'\1;', line)
   # Turn anonymous namespaces into their proper symbol representation.
   namespaces_in_line = iwyu_namespace_re.findall(line.replace(
     "namespace {", "namespace (anonymous namespace) {"))
-- 
2.43.0


From de36c6c7ae9876dd07cdbe3d9298958ee852010d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:52 +0000
Subject: [PATCH 12/33] fix: the short option -r takes its dialect argument
 instead of crashing

---
 iwyu_globals.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iwyu_globals.cc b/iwyu_globals.cc
index d59aa6a..13b9fbf 100644
--- a/iwyu_globals.cc
+++ b/iwyu_globals.cc
@@ -253,7 +253,7 @@ int CommandlineFlags::ParseArgv(int argc, char** argv) {
     {"experimental", required_argument, nullptr, 'p'},
     {nullptr, 0, nullptr, 0}
   };
-  static const char shortopts[] = "v:c:m:d:nr";
+  static const char shortopts[] = "v:c:m:d:nr:";
   while (true) {
     switch (getopt_long(argc, argv, shortopts, longopts, nullptr)) {
       case 'c': AddGlobToReportIWYUViolationsFor(optarg); break;
-- 
2.43.0


From 622e6d9c91370b8615104b819dd40984359a481a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:52 +0000
Subject: [PATCH 13/33] fix: a response file ending in a backslash is not read
 past its end

---
 iwyu_driver.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/iwyu_driver.cc b/iwyu_driver.cc
index 6b52c34..b1b9e49 100644
--- a/iwyu_driver.cc
+++ b/iwyu_driver.cc
@@ -149,9 +149,10 @@ void ExpandArgsFromBuf(const char *Arg,
     }
 
     if (*P == '\\') {
-      ++P;
-      if (*P != '\0')
-        CurArg.push_back(*P);
+      // A backslash escapes the next character; at the end of the file there
+      // is none, so leave the terminating null for the next iteration.
+      if (P[1] != '\0')
+        CurArg.push_back(*++P);
       continue;
     }
     CurArg.push_back(*P);
-- 
2.43.0


From 13f2ce264cfcdfa82e7c4328251fed150f282973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:51:52 +0000
Subject: [PATCH 14/33] fix: a response file naming itself does not recurse
 until the stack is gone

---
 iwyu_driver.cc | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/iwyu_driver.cc b/iwyu_driver.cc
index b1b9e49..83ff790 100644
--- a/iwyu_driver.cc
+++ b/iwyu_driver.cc
@@ -102,10 +102,18 @@ const char *SaveStringInSet(std::set<std::string> &SavedStrings, StringRef S) {
 
 void ExpandArgsFromBuf(const char *Arg,
                        SmallVectorImpl<const char*> &ArgVector,
-                       set<std::string> &SavedStrings) {
+                       set<std::string> &SavedStrings,
+                       set<std::string> &ActiveFiles) {
   const char *FName = Arg + 1;
+  // A response file that (indirectly) names itself is not expanded again.
+  if (!ActiveFiles.insert(FName).second) {
+    ArgVector.push_back(SaveStringInSet(SavedStrings, Arg));
+    return;
+  }
+
   ErrorOr<unique_ptr<MemoryBuffer>> MemBufOrErr = MemoryBuffer::getFile(FName);
   if (!MemBufOrErr) {
+    ActiveFiles.erase(FName);
     ArgVector.push_back(SaveStringInSet(SavedStrings, Arg));
     return;
   }
@@ -121,7 +129,8 @@ void ExpandArgsFromBuf(const char *Arg,
         if (CurArg[0] != '@') {
           ArgVector.push_back(SaveStringInSet(SavedStrings, CurArg));
         } else {
-          ExpandArgsFromBuf(CurArg.c_str(), ArgVector, SavedStrings);
+          ExpandArgsFromBuf(CurArg.c_str(), ArgVector, SavedStrings,
+                            ActiveFiles);
         }
 
         CurArg = "";
@@ -157,11 +166,14 @@ void ExpandArgsFromBuf(const char *Arg,
     }
     CurArg.push_back(*P);
   }
+
+  ActiveFiles.erase(FName);
 }
 
 void ExpandArgv(int argc, const char **argv,
                 SmallVectorImpl<const char*> &ArgVector,
                 set<std::string> &SavedStrings) {
+  set<std::string> ActiveFiles;
   for (int i = 0; i < argc; ++i) {
     const char *Arg = argv[i];
     if (Arg[0] != '@') {
@@ -169,7 +181,7 @@ void ExpandArgv(int argc, const char **argv,
       continue;
     }
 
-    ExpandArgsFromBuf(Arg, ArgVector, SavedStrings);
+    ExpandArgsFromBuf(Arg, ArgVector, SavedStrings, ActiveFiles);
   }
 }
 
-- 
2.43.0


From 15b3c5cdb5dc6f9eefe3dba08864ccf341b24d2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:09 +0000
Subject: [PATCH 15/33] fix: a pattern matches whole names even with top-level
 alternatives or an escaped end

---
 iwyu_regex.cc | 39 ++++++++++++++++-----------------------
 1 file changed, 16 insertions(+), 23 deletions(-)

diff --git a/iwyu_regex.cc b/iwyu_regex.cc
index 09aee7b..3a5451d 100644
--- a/iwyu_regex.cc
+++ b/iwyu_regex.cc
@@ -13,7 +13,7 @@
 #include <regex>
 
 #include "iwyu_port.h"
-#include "iwyu_string_util.h"
+#include "llvm/ADT/SmallVector.h"
 #include "llvm/ADT/StringRef.h"
 #include "llvm/Support/Regex.h"
 
@@ -21,21 +21,13 @@ namespace include_what_you_use {
 
 namespace {
 
-// Add ^...$ start/end anchoring if they don't already exist.
-// This is useful to transform from search-inside-string semantics to match-
-// whole-string semantics for regex implementations that don't support the
-// latter.
-std::string Anchored(const std::string& pattern) {
-  const char* prefix = "";
-  const char* suffix = "";
-  if (!StartsWith(pattern, "^")) {
-    prefix = "^";
-  }
-  if (!EndsWith(pattern, "$")) {
-    suffix = "$";
-  }
-
-  return prefix + pattern + suffix;
+// Match the whole string. llvm::Regex::match has search semantics, but finds the
+// leftmost longest match, so if the pattern matches the whole string at all, the
+// whole string is what it finds. That makes anchors unnecessary; adding them to
+// the pattern text would not do for e.g. 'a|b' or 'a\$'.
+bool MatchesWhole(const llvm::Regex& r, const std::string& str) {
+  llvm::SmallVector<llvm::StringRef, 4> matches;
+  return r.match(str, &matches) && matches[0].size() == str.size();
 }
 
 }  // anonymous namespace
@@ -55,9 +47,8 @@ bool RegexMatch(RegexDialect dialect, const std::string& str,
                 const std::string& pattern) {
   switch (dialect) {
     case RegexDialect::LLVM: {
-      // llvm::Regex::match has search semantics; ensure anchored.
-      llvm::Regex r(Anchored(pattern));
-      return r.match(str);
+      llvm::Regex r(pattern);
+      return MatchesWhole(r, str);
     }
 
     case RegexDialect::ECMAScript: {
@@ -73,14 +64,16 @@ std::string RegexReplace(RegexDialect dialect, const std::string& str,
                          const std::string& replacement) {
   switch (dialect) {
     case RegexDialect::LLVM: {
-      // llvm::Regex::sub has search semantics; ensure anchored.
-      llvm::Regex r(Anchored(pattern));
+      llvm::Regex r(pattern);
+      if (!MatchesWhole(r, str))
+        return str;
       return r.sub(replacement, str);
     }
 
     case RegexDialect::ECMAScript: {
-      // std::regex_replace has search semantics; ensure anchored.
-      std::regex r(Anchored(pattern), std::regex_constants::ECMAScript);
+      // std::regex_replace has search semantics; ensure anchored. The group
+      // keeps alternatives together and is not counted.
+      std::regex r("^(?:" + pattern + ")$", std::regex_constants::ECMAScript);
       return std::regex_replace(str, r, replacement,
                                 std::regex_constants::format_first_only);
     }
-- 
2.43.0


From faf0d908e5658212639e930560a420c8b829e533 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:05:28 +0000
Subject: [PATCH 16/33] fix: mapping cycles no longer cut the chains of other
 headers short

---
 iwyu_include_picker.cc | 106 ++++++++++++++++++-----------------------
 1 file changed, 47 insertions(+), 59 deletions(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 33fa421..495359f 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1273,71 +1273,59 @@ void ExpandOnce(const IncludePicker::IncludeMap& m,
   nodes->swap(nodes_and_children);  // modify nodes in-place
 }
 
-enum TransitiveStatus { kUnused = 0, kCalculating, kDone };
-
-// If the filename-map maps a.h to b.h, and also b.h to c.h, then
-// there's a transitive mapping of a.h to c.h.  We want to add that
-// into the filepath map as well, to make lookups easier.  We do this
-// by doing a depth-first search for a single mapping, recursing
-// whenever the value is itself a key in the map, and putting the
-// results in a vector of all values seen.
-// NOTE: This function updates values seen in filename_map, but
-// does not invalidate any filename_map iterators.
-void MakeNodeTransitive(IncludePicker::IncludeMap* filename_map,
-                        map<string, TransitiveStatus>* seen_nodes,
-                        vector<string>* node_stack,  // used for debugging
-                        const string& key) {
-  // If we've already calculated this node's transitive closure, we're done.
-  const TransitiveStatus status = (*seen_nodes)[key];
-  if (status == kCalculating) {  // means there's a cycle in the mapping
-    // Note that cycles in mappings are generally benign, the cycle detection
-    // here is only necessary to protect the recursive algorithm from infinite
-    // regress. We will still expand all reachable nodes in the graph to a
-    // plain sequence representing the transitive closure.
-    // The expanded mappings are only used for simple lookup, never followed
-    // recursively (which could have necessitated preserving cycles and handling
-    // them in that traversal too).
-    // Log cycles at a high verbosity level to aid debugging.
-    VERRS(8) << "Ignored cycle in include mappings: ";
-    for (const string& node : *node_stack)
-      VERRS(8) << node << " -> ";
-    VERRS(8) << key << "\n";
-    return;
-  }
-  if (status == kDone)
+// Appends to closure everything key leads to in filename_map, each node before
+// the nodes it maps to, ignoring nodes in seen_nodes.
+void AppendTransitiveClosure(const IncludePicker::IncludeMap& filename_map,
+                             set<string>* seen_nodes,
+                             vector<string>* node_stack,  // for debugging
+                             const string& key,
+                             vector<MappedInclude>* closure) {
+  const vector<MappedInclude>* children = FindInMap(&filename_map, key);
+  if (children == nullptr)
     return;
 
-  IncludePicker::IncludeMap::iterator node = filename_map->find(key);
-  if (node == filename_map->end()) {
-    (*seen_nodes)[key] = kDone;
-    return;
-  }
-
-  // Keep track of node->second as we update it, to avoid duplicates.
-  (*seen_nodes)[key] = kCalculating;
-  for (const MappedInclude& child : node->second) {
-    node_stack->push_back(child.quoted_include);
-    MakeNodeTransitive(filename_map, seen_nodes, node_stack,
-                       child.quoted_include);
-    node_stack->pop_back();
+  node_stack->push_back(key);
+  for (const MappedInclude& child : *children) {
+    const string& child_key = child.quoted_include;
+    if (find(node_stack->begin(), node_stack->end(), child_key) !=
+        node_stack->end()) {  // means there's a cycle in the mapping
+      // Note that cycles in mappings are generally benign.  We will still
+      // expand all reachable nodes in the graph to a plain sequence
+      // representing the transitive closure.
+      // The expanded mappings are only used for simple lookup, never followed
+      // recursively (which could have necessitated preserving cycles and
+      // handling them in that traversal too).
+      // Log cycles at a high verbosity level to aid debugging.
+      VERRS(8) << "Ignored cycle in include mappings: ";
+      for (const string& node : *node_stack)
+        VERRS(8) << node << " -> ";
+      VERRS(8) << child_key << "\n";
+    }
+    if (!seen_nodes->insert(child_key).second)
+      continue;
+    closure->push_back(child);
+    AppendTransitiveClosure(filename_map, seen_nodes, node_stack, child_key,
+                            closure);
   }
-  (*seen_nodes)[key] = kDone;
-
-  // Our transitive closure is just the union of the closure of our
-  // children.  This routine replaces our value with this closure,
-  // by replacing each of our values with its values.  Since our
-  // values have already been made transitive, that is a closure.
-  ExpandOnce(*filename_map, &node->second);
+  node_stack->pop_back();
 }
 
-// Updates the values in filename_map based on its transitive mappings.
+// If the filename-map maps a.h to b.h, and also b.h to c.h, then
+// there's a transitive mapping of a.h to c.h.  We want to add that
+// into the filepath map as well, to make lookups easier.  We do this
+// by doing a depth-first search from each key, putting the results
+// in a vector of all values seen.  The searches only follow the
+// original mappings: on a cycle, the value of a node that is still
+// being expanded would not be its transitive closure.
 void MakeMapTransitive(IncludePicker::IncludeMap* filename_map) {
-  // Insert keys of filename_map here once we know their value is
-  // the complete transitive closure.
-  map<string, TransitiveStatus> seen_nodes;
-  vector<string> node_stack;
-  for (const IncludePicker::IncludeMap::value_type& includes : *filename_map)
-    MakeNodeTransitive(filename_map, &seen_nodes, &node_stack, includes.first);
+  IncludePicker::IncludeMap transitive_map;
+  for (const IncludePicker::IncludeMap::value_type& includes : *filename_map) {
+    set<string> seen_nodes;
+    vector<string> node_stack;
+    AppendTransitiveClosure(*filename_map, &seen_nodes, &node_stack,
+                            includes.first, &transitive_map[includes.first]);
+  }
+  filename_map->swap(transitive_map);
 }
 
 // Get a scalar value from a YAML node.
-- 
2.43.0


From bae381096f59963d99b9400f2a7ac4e5c143e390 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:08 +0000
Subject: [PATCH 17/33] fix: a mapping file referring to itself does not
 recurse until the stack is gone

---
 iwyu_include_picker.cc | 22 ++++++++++++++++++----
 iwyu_include_picker.h  |  5 +++--
 2 files changed, 21 insertions(+), 6 deletions(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 495359f..453c6b5 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1918,7 +1918,8 @@ bool IncludePicker::IsPublic(OptionalFileEntryRef file) const {
 // Parses a YAML/JSON file containing mapping directives of various types.
 void IncludePicker::AddMappingsFromFile(const string& filename) {
   vector<string> default_search_path;
-  return AddMappingsFromFile(filename, default_search_path);
+  vector<string> no_referrers;
+  return AddMappingsFromFile(filename, default_search_path, no_referrers);
 }
 
 vector<string> IncludePicker::GetMappedPublicHeaders(
@@ -1939,11 +1940,19 @@ vector<string> IncludePicker::GetMappedPublicHeaders(
 //  ref      - include mechanism for mapping files, to allow project-specific
 //             groupings
 // This private implementation method is recursive and builds the search path
-// incrementally.
+// and the list of referring files incrementally.
 void IncludePicker::AddMappingsFromFile(const string& filename,
-                                        const vector<string>& search_path) {
+                                        const vector<string>& search_path,
+                                        const vector<string>& referrers) {
   string absolute_path = FindFileInSearchPath(search_path, filename);
 
+  if (find(referrers.begin(), referrers.end(), absolute_path) !=
+      referrers.end()) {
+    VERRS(0) << "Ignoring mapping file '" << absolute_path
+             << "' referring to itself.\n";
+    return;
+  }
+
   llvm::ErrorOr<unique_ptr<MemoryBuffer>> bufferOrError =
       MemoryBuffer::getFile(absolute_path);
   if (std::error_code error = bufferOrError.getError()) {
@@ -2072,8 +2081,13 @@ void IncludePicker::AddMappingsFromFile(const string& filename,
             ExtendMappingFileSearchPath(search_path,
                                         GetParentPath(absolute_path));
 
+        // Also keep track of the file itself, in case it is referred to again.
+        vector<string> extended_referrers(referrers);
+        extended_referrers.push_back(absolute_path);
+
         // Recurse.
-        AddMappingsFromFile(ref_file, extended_search_path);
+        AddMappingsFromFile(ref_file, extended_search_path,
+                            extended_referrers);
       } else {
         json_stream.printError(current_node,
             "Unknown directive '" + directive + "'.");
diff --git a/iwyu_include_picker.h b/iwyu_include_picker.h
index 44275e1..6d04272 100644
--- a/iwyu_include_picker.h
+++ b/iwyu_include_picker.h
@@ -196,9 +196,10 @@ class IncludePicker {
  private:
   // Private implementation of mapping file parser, which takes
   // mapping file search path to allow recursion that builds up
-  // search path incrementally.
+  // search path incrementally, and the files being read already.
   void AddMappingsFromFile(const string& filename,
-                           const vector<string>& search_path);
+                           const vector<string>& search_path,
+                           const vector<string>& referrers);
 
   // Adds all hard-coded default mappings.
   void AddDefaultMappings(CStdLib cstdlib, CXXStdLib cxxstdlib);
-- 
2.43.0


From 7316a804d0ca5296aa6469ceedcb14c6695fdba9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 18/33] fix: special characters in a directory's name do not
 keep it from its internal headers

---
 iwyu_include_picker.cc | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index 453c6b5..ba2d903 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -38,6 +38,7 @@
 #include "llvm/Support/FileSystem.h"
 #include "llvm/Support/Format.h"
 #include "llvm/Support/MemoryBuffer.h"
+#include "llvm/Support/Regex.h"
 #include "llvm/Support/SourceMgr.h"
 #include "llvm/Support/YAMLParser.h"
 
@@ -46,6 +47,7 @@
 
 using clang::OptionalFileEntryRef;
 using llvm::MemoryBuffer;
+using llvm::Regex;
 using llvm::SourceMgr;
 using llvm::yaml::KeyValueNode;
 using llvm::yaml::MappingNode;
@@ -1573,7 +1575,8 @@ void IncludePicker::AddDirectInclude(const string& includer_filepath,
     // filepath.  We get the opening quote from quoted_includee, and
     // the closing quote as part of the .*.
     AddFriendRegex(includee_filepath,
-                   quoted_includee.substr(0, internal_pos) + ".*");
+                   Regex::escape(quoted_includee.substr(0, internal_pos)) +
+                       ".*");
     VERRS(8) << "Adding dynamic mapping for internal/ header\n";
     AddMapping(quoted_includee, mapped_includer);
   }
-- 
2.43.0


From 8235cb8697faf38f317576aa34e509e357365aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 19/33] fix: a friend pragma also works for files below no
 search path

---
 iwyu_include_picker.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index ba2d903..da385f5 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1869,8 +1869,8 @@ vector<string> IncludePicker::GetCandidateHeadersForFilepathIncludedFrom(
   // (e.g. "foo.cpp") instead of the absolute file path.
   const string including_path =
       MakeAbsolutePath(GetParentPath(including_filepath));
-  const string quoted_includer = ConvertToQuotedInclude(
-      including_filepath, including_path);
+  // The friend map is keyed by context-free names, so don't pass the path here.
+  const string quoted_includer = ConvertToQuotedInclude(including_filepath);
   const string quoted_includee = ConvertToQuotedInclude(
       included_filepath, including_path);
   const set<string>* headers_with_includer_as_friend =
-- 
2.43.0


From ef135bc4334716e135ac5456246b6f8cd2ce845e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:27 +0000
Subject: [PATCH 20/33] fix: friends keep the spelling under which they include
 a private header

---
 iwyu_include_picker.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index da385f5..e3ae0c5 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1878,7 +1878,7 @@ vector<string> IncludePicker::GetCandidateHeadersForFilepathIncludedFrom(
   if (headers_with_includer_as_friend != nullptr &&
       ContainsKey(*headers_with_includer_as_friend, included_filepath)) {
     mapped_includes.push_back(
-        MappedInclude(quoted_includee, including_filepath));
+        MappedInclude(quoted_includee, included_filepath));
   } else {
     mapped_includes =
         GetCandidateHeadersForFilepath(included_filepath, including_filepath);
-- 
2.43.0


From ac7b6326df5b741f6acbbf393c2a7949ee66d0a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:40 +0000
Subject: [PATCH 21/33] fix: a private header below no search path is not
 proposed to its neighbours

---
 iwyu_include_picker.cc | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/iwyu_include_picker.cc b/iwyu_include_picker.cc
index e3ae0c5..3f0f3c9 100644
--- a/iwyu_include_picker.cc
+++ b/iwyu_include_picker.cc
@@ -1851,7 +1851,11 @@ vector<MappedInclude> IncludePicker::GetCandidateHeadersForFilepath(
         filepath, MakeAbsolutePath(GetParentPath(including_filepath)));
   }
   MappedInclude default_header(quoted_header, filepath);
-  if (retval.empty() || GetVisibility(default_header, kPublic) == kPublic) {
+  // Visibility may have been specified for the header's context-free name.
+  MappedInclude context_free_header(absolute_quoted_header, filepath);
+  if (retval.empty() ||
+      (GetVisibility(default_header, kPublic) == kPublic &&
+       GetVisibility(context_free_header, kPublic) == kPublic)) {
     // Insert at front so it's the preferred option
     retval.insert(retval.begin(), default_header);
   }
-- 
2.43.0


From 20d0528e0c1220b1310cb6d638ff103af680af46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:29:42 +0000
Subject: [PATCH 22/33] fix: the main file is recognised when a mapping names
 it as the header to include

---
 iwyu_preprocessor.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 9acde4f..c96824c 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -590,8 +590,12 @@ void IwyuPreprocessorInfo::AddDirectInclude(
 
   GetFromFileInfoMap(includer)->AddInclude(
       includee, include_name_as_written, GetLineNumber(includer_loc));
-  // Make sure the includee has a file-info-map entry too.
-  InsertIntoFileInfoMap(includee, include_name_as_written);
+  // Make sure the includee has a file-info-map entry too.  Files that are not
+  // named by an #include (the main file, for one) go by their path.
+  InsertIntoFileInfoMap(includee,
+                        include_name_as_written.empty()
+                            ? ConvertToQuotedInclude(GetFilePath(includee))
+                            : include_name_as_written);
 
   // The first #include in every translation unit might be a precompiled header
   // and we need to mark it as such for later analysis.
-- 
2.43.0


From c1c8babfc9ee999104fd55d2c474ef8153ec0040 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 23/33] fix: --max_line_length=0 prints no comments instead of
 crashing

---
 iwyu_output.cc | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index be3e0fa..fd19ab9 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -114,8 +114,8 @@ string OutputLine::printable_line(size_t min_length, size_t max_length) const {
   if (symbols_.empty())
     return line_;
 
-  CHECK_(max_length > 0);
-  --max_length;  // Spare a char for newline character.
+  if (max_length > 0)
+    --max_length;  // Spare a char for newline character.
 
   // Before first symbol, print '  // for ' and pad it so 'why' comments are
   // nicely aligned.
-- 
2.43.0


From f9cf464d67c082ca1ecdfbd69ebb51ea0cb73956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:41 +0000
Subject: [PATCH 24/33] fix: edits count for --error whatever the verbosity

---
 iwyu_output.cc | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index fd19ab9..d631cc1 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -2117,6 +2117,10 @@ size_t PrintableDiffs(const string& filename,
   }
 
   size_t num_edits = 0;
+  for (const auto& key_line : sorted_lines) {
+    if (key_line.second->is_desired() != key_line.second->is_present())
+      ++num_edits;
+  }
 
   // First, new desired includes and forward-declares.
   if (ShouldPrint(1)) {
@@ -2127,7 +2131,6 @@ size_t PrintableDiffs(const string& filename,
       if (line->is_desired() && !line->is_present()) {
         output_lines.push_back(
           PrintableIncludeOrForwardDeclareLine(*line, aqi));
-        ++num_edits;
       }
     }
   }
@@ -2142,8 +2145,6 @@ size_t PrintableDiffs(const string& filename,
         output_lines.push_back(
             PrintableIncludeOrForwardDeclareLine(*line, aqi));
         output_lines.back().add_prefix("- ");
-
-        ++num_edits;
       }
     }
   }
-- 
2.43.0


From def15d0d662e97260b0412fddf34a7995cc6dc3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:38 +0000
Subject: [PATCH 25/33] fix: a stray associated pragma does not disable those
 that follow it

---
 iwyu_preprocessor.cc | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index c96824c..3ff7740 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -339,9 +339,8 @@ void IwyuPreprocessorInfo::HandlePragmaComment(SourceRange comment_range) {
   }
 
   if (MatchOneToken(tokens, "associated", 1, begin_loc)) {
-    if (associated_pragma_location_.isInvalid()) {
-      associated_pragma_location_ = begin_loc;
-    }
+    // A pragma no #include followed, in this file or another, is superseded.
+    associated_pragma_location_ = begin_loc;
     return;
   }
 
-- 
2.43.0


From 37a60b00f78f67fe82eb204afc4c256f0cf3f1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:24 +0000
Subject: [PATCH 26/33] fix: --keep no longer disables an export pragma on the
 same include

---
 iwyu_preprocessor.cc | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 3ff7740..758b7bd 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -467,6 +467,11 @@ void IwyuPreprocessorInfo::MaybeProtectInclude(
   if (IsSpecialFile(includer))
     return;
 
+  // The command line version of pragma keep, which leaves an export in force.
+  const bool is_command_line_keep = ShouldKeepIncludeFor(includee);
+  if (is_command_line_keep)
+    FileInfoFor(includer)->ReportKnownDesiredFile(includee);
+
   string protect_reason;
   // We always keep lines with pragmas "keep" or "export".
   // TODO(dsturtevant): As written "// // IWYU pragma: keep" is incorrectly
@@ -478,11 +483,6 @@ void IwyuPreprocessorInfo::MaybeProtectInclude(
     protect_reason = "pragma_keep";
     FileInfoFor(includer)->ReportKnownDesiredFile(includee);
 
-  } else if (ShouldKeepIncludeFor(includee)) {
-    // The command line version of pragma keep.
-    protect_reason = "--keep";
-    FileInfoFor(includer)->ReportKnownDesiredFile(includee);
-
   } else if (LineHasText(includer_loc, "// IWYU pragma: export") ||
              LineHasText(includer_loc, "/* IWYU pragma: export") ||
              HasOpenBeginExports(includer)) {
@@ -505,6 +505,9 @@ void IwyuPreprocessorInfo::MaybeProtectInclude(
       MutableGlobalIncludePicker()->AddMapping(map_from, map_to);
     }
 
+  } else if (is_command_line_keep) {
+    protect_reason = "--keep";
+
   // We also always keep #includes of .c files: iwyu doesn't touch those.
   // TODO(csilvers): instead of IsHeaderFile, check if the file has
   // any "non-inlined" definitions.
-- 
2.43.0


From aac218233e4ea362172e4c1e4f384f1a785cbc60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:18 +0000
Subject: [PATCH 27/33] fix: what a file intends to provide does not depend on
 the order of its includes

---
 iwyu_preprocessor.cc | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 758b7bd..1c2c3a6 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -1008,8 +1008,12 @@ void IwyuPreprocessorInfo::PopulateIntendsToProvideMap() {
           fileinfo.second.direct_includes_as_fileentries();
       for (OptionalFileEntryRef inc : direct_includes) {
         intends_to_provide_map_[file].insert(inc);
-        if (picker.IsPublic(inc))
-          AddAllIncludesAsFileEntries(inc, &intends_to_provide_map_[file]);
+        if (picker.IsPublic(inc)) {
+          // Collect them separately: the search stops at what is there already.
+          set<OptionalFileEntryRef> includes_of_public;
+          AddAllIncludesAsFileEntries(inc, &includes_of_public);
+          InsertAllInto(includes_of_public, &intends_to_provide_map_[file]);
+        }
       }
     }
   }
-- 
2.43.0


From ac3cdbdea41634e95eaa74f2fcb69517e510e867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:53:21 +0000
Subject: [PATCH 28/33] fix: a forward declaration that the associated header
 drops is not relied on

---
 iwyu_output.cc | 25 +++++++++++++++++++++----
 iwyu_output.h  | 10 +++-------
 2 files changed, 24 insertions(+), 11 deletions(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index d631cc1..76211b6 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -625,6 +625,17 @@ void IwyuFileInfo::AddForwardDeclare(const NamedDecl* fwd_decl,
            << internal::GetQualifiedNameAsString(fwd_decl) << "\n";
 }
 
+bool IwyuFileInfo::RemovesForwardDeclare(const NamedDecl* decl) const {
+  const NamedDecl* tpl_decl = nullptr;
+  if (const CXXRecordDecl* cxx_decl = DynCastFrom(decl))
+    tpl_decl = cxx_decl->getDescribedClassTemplate();
+  return std::any_of(lines_.begin(), lines_.end(),
+                     [&](const OneIncludeOrForwardDeclareLine& line) {
+    return (line.matches(decl) || (tpl_decl && line.matches(tpl_decl))) &&
+           line.is_present() && !line.is_desired();
+  });
+}
+
 void IwyuFileInfo::AddElaboratedType(ElaboratedTypeLoc type_loc) {
   if (!type_loc.getTypePtr()->getOwnedTagDecl())
     return;
@@ -1483,7 +1494,7 @@ void ProcessSymbolUse(OneUse* use,
 void CalculateIwyuForForwardDeclareUse(
     OneUse* use, const set<string>& actual_includes,
     const set<string>& desired_includes,
-    const set<OptionalFileEntryRef>& associated_includes) {
+    const set<const IwyuFileInfo*>& associated_headers) {
   CHECK_(!use->ignore_use() && "Trying to calculate on an ignored use");
   CHECK_(use->decl() && "CalculateIwyuForForwardDeclareUse takes a fwd-decl");
   CHECK_(!use->is_full_use() && "ForwardDeclareUse are not full uses");
@@ -1533,10 +1544,16 @@ void CalculateIwyuForForwardDeclareUse(
   }
   // If there's no redecl in the .cc file, we'll accept a redecl in
   // an associated .h file.  Since associated .h files are always
-  // desired includes, we don't need to check for that.
+  // desired includes, we don't need to check for that.  But a
+  // forward-declare that the .h file is told to remove is of no use.
   if (!same_file_decl) {
     for (const NamedDecl* redecl : redecls) {
-      if (ContainsKey(associated_includes, GetFileEntry(redecl))) {
+      const OptionalFileEntryRef redecl_file = GetFileEntry(redecl);
+      if (std::any_of(associated_headers.begin(), associated_headers.end(),
+                      [&](const IwyuFileInfo* associated) {
+                        return associated->file_entry() == redecl_file &&
+                               !associated->RemovesForwardDeclare(redecl);
+                      })) {
         same_file_decl = redecl;
         break;
       }
@@ -1723,7 +1740,7 @@ void IwyuFileInfo::CalculateIwyuViolations(vector<OneUse>* uses) {
     } else if (!use.is_full_use()) {
       internal::CalculateIwyuForForwardDeclareUse(
           &use, effective_direct_includes, effective_desired_includes,
-          AssociatedFileEntries());
+          associated_headers_);
     } else {
       internal::CalculateIwyuForFullUse(
           &use, effective_direct_includes, quoted_file_);
diff --git a/iwyu_output.h b/iwyu_output.h
index 8eb3338..7ec56c5 100644
--- a/iwyu_output.h
+++ b/iwyu_output.h
@@ -278,6 +278,9 @@ class IwyuFileInfo {
   // the fwd-decl be removed, even if we don't see any uses of it.
   void AddForwardDeclare(const clang::NamedDecl* fwd_decl,
                          bool definitely_keep_fwd_decl);
+  // Whether decl is a fwd-decl in this file that we suggest be removed.
+  // Only meaningful once our own violations have been calculated.
+  bool RemovesForwardDeclare(const clang::NamedDecl* decl) const;
   void AddElaboratedType(clang::ElaboratedTypeLoc);
 
   void AddUsingDecl(const clang::UsingDecl* using_decl);
@@ -361,13 +364,6 @@ class IwyuFileInfo {
     return associated_quoted_includes;
   }
 
-  set<clang::OptionalFileEntryRef> AssociatedFileEntries() const {
-    set<clang::OptionalFileEntryRef> associated_file_entries;
-    for (const IwyuFileInfo* associated : associated_headers_)
-      associated_file_entries.insert(associated->file_);
-    return associated_file_entries;
-  }
-
   set<string> AssociatedDesiredIncludes() const {
     set<string> associated_desired_includes;
     for (const IwyuFileInfo* associated : associated_headers_)
-- 
2.43.0


From 52074a78b6b0f8d5749df01304e1480cb1a9e2d6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:42 +0000
Subject: [PATCH 29/33] fix: a function-like macro ending a macro's body is not
 looked past

---
 iwyu_preprocessor.cc | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 1c2c3a6..344ae51 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -736,7 +736,7 @@ void IwyuPreprocessorInfo::MacroDefined(const Token& id,
     // A token with an associated macro it will only be considered for macro
     // expansion if it's object-like or function-like and followed by l-paren.
     if (macro->isFunctionLike() &&
-        GetNextMacroTokenKind(macro, it) != clang::tok::l_paren) {
+        GetNextMacroTokenKind(defined_macro, it) != clang::tok::l_paren) {
       continue;
     }
 
-- 
2.43.0


From 447bc90cbbf63f8e6bb042d15e726c47d34a2804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:22:42 +0000
Subject: [PATCH 30/33] fix: a macro's parameter is not taken for a macro of
 the same name

---
 iwyu_preprocessor.cc | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 344ae51..31af2f6 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -728,6 +728,10 @@ void IwyuPreprocessorInfo::MacroDefined(const Token& id,
     if (token.isExpandDisabled())
       continue;
 
+    // A parameter hides any macro of the same name.
+    if (defined_macro->getParameterNum(token.getIdentifierInfo()) != -1)
+      continue;
+
     const MacroInfo* macro =
         preprocessor_.getMacroInfo(token.getIdentifierInfo());
     if (!macro || !macro->isEnabled())
-- 
2.43.0


From 7d626e0044854e5c128ad2ee2f4e38cbf3250de8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:24:49 +0000
Subject: [PATCH 31/33] fix: default arguments do not cut the forward
 declaration of a template short

---
 iwyu_output.cc | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/iwyu_output.cc b/iwyu_output.cc
index 76211b6..e141345 100644
--- a/iwyu_output.cc
+++ b/iwyu_output.cc
@@ -462,6 +462,25 @@ string MungedForwardDeclareLineForNontemplates(const TagDecl* decl) {
   return PrintForwardDeclare(decl, GetKindName(decl), GlobalFlags().cxx17ns);
 }
 
+// Given the print-out of a template, returns the length of its head, that is
+// 'template <...>'.  An angle bracket within other brackets is an operator.
+size_t TemplateHeadLength(const string& line) {
+  int brackets = 0;
+  int angles = 0;
+  for (size_t i = 0; i < line.length(); ++i) {
+    const char c = line[i];
+    if (c == '(' || c == '[' || c == '{')
+      ++brackets;
+    else if (c == ')' || c == ']' || c == '}')
+      --brackets;
+    else if (c == '<' && brackets == 0)
+      ++angles;
+    else if (c == '>' && brackets == 0 && --angles == 0)
+      return i + 1;
+  }
+  return 0;
+}
+
 // Given a TemplateDecl representing a class|struct|union template
 // declaration, return the line that could be put in source code to
 // forward-declare the template, e.g.
@@ -483,6 +502,12 @@ string MungedForwardDeclareLineForTemplates(const TemplateDecl* decl) {
   decl->print(ostream, policy);
   ostream.flush();
 
+  // Leave the template parameters alone: their default arguments may contain
+  // anything, e.g. ' ::ns::Class'.
+  const size_t head_length = TemplateHeadLength(line);
+  const string head = line.substr(0, head_length);
+  line = line.substr(head_length);
+
   // Remove "final" specifier, it isn't allowed for forward declarations.
   ReplaceAll(&line, " final ", " ");
 
@@ -496,7 +521,7 @@ string MungedForwardDeclareLineForTemplates(const TemplateDecl* decl) {
   const string::size_type name = line.rfind(' ');
   CHECK_(name != string::npos && "Unexpected printable template-type");
 
-  line = line.substr(0, name);
+  line = head + line.substr(0, name);
 
   return PrintForwardDeclare(decl, line, GlobalFlags().cxx17ns);
 }
-- 
2.43.0


From 9dbcf9d77062ca8b6132ea74463da8c2ceb5cb3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:24:55 +0000
Subject: [PATCH 32/33] fix: #elifdef and #elifndef use the macro they test

---
 iwyu_preprocessor.cc | 16 ++++++++++++++++
 iwyu_preprocessor.h  |  6 ++++++
 2 files changed, 22 insertions(+)

diff --git a/iwyu_preprocessor.cc b/iwyu_preprocessor.cc
index 31af2f6..177aa71 100644
--- a/iwyu_preprocessor.cc
+++ b/iwyu_preprocessor.cc
@@ -766,6 +766,22 @@ void IwyuPreprocessorInfo::Ifndef(SourceLocation loc, const Token& id,
   ReportMacroUse(GetName(id), id.getLocation(), GetMacroDefLoc(definition));
 }
 
+void IwyuPreprocessorInfo::Elifdef(SourceLocation loc, const Token& id,
+                                   const MacroDefinition& definition) {
+  ERRSYM(GetFileEntry(id.getLocation()))
+      << "[ #elifdef    ] " << PrintableLoc(id.getLocation()) << ": "
+      << GetName(id) << "\n";
+  ReportMacroUse(GetName(id), id.getLocation(), GetMacroDefLoc(definition));
+}
+
+void IwyuPreprocessorInfo::Elifndef(SourceLocation loc, const Token& id,
+                                    const MacroDefinition& definition) {
+  ERRSYM(GetFileEntry(id.getLocation()))
+      << "[ #elifndef   ] " << PrintableLoc(id.getLocation()) << ": "
+      << GetName(id) << "\n";
+  ReportMacroUse(GetName(id), id.getLocation(), GetMacroDefLoc(definition));
+}
+
 // Clang will give a MacroExpands() callback for all macro-tokens
 // used inside an #if or #elif, *except* macro-tokens used within a
 // 'defined' operator. They produce a Defined() callback.
diff --git a/iwyu_preprocessor.h b/iwyu_preprocessor.h
index 9be44b4..2b7fc0a 100644
--- a/iwyu_preprocessor.h
+++ b/iwyu_preprocessor.h
@@ -184,6 +184,12 @@ class IwyuPreprocessorInfo : public clang::PPCallbacks,
              const clang::MacroDefinition& definition) override;
   void Ifndef(clang::SourceLocation loc, const clang::Token& id,
               const clang::MacroDefinition& definition) override;
+  using clang::PPCallbacks::Elifdef;
+  void Elifdef(clang::SourceLocation loc, const clang::Token& id,
+               const clang::MacroDefinition& definition) override;
+  using clang::PPCallbacks::Elifndef;
+  void Elifndef(clang::SourceLocation loc, const clang::Token& id,
+                const clang::MacroDefinition& definition) override;
   void Defined(const clang::Token& id,
                const clang::MacroDefinition& definition,
                clang::SourceRange range) override;
-- 
2.43.0


From ba0fb17b5e77ec409f5600c03fd6116727cca14f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:58 +0000
Subject: [PATCH 33/33] fix: a comment does not decide whether a system header
 counts as a C header

---
 fix_includes.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/fix_includes.py b/fix_includes.py
index a07d224..f51ac04 100755
--- a/fix_includes.py
+++ b/fix_includes.py
@@ -1681,12 +1681,11 @@ def _IsSameProject(line_info, edited_file, project):
 
 def _GetLineKind(file_line, filename, separate_project_includes):
   """Given a file_line + file being edited, return best *_KIND value or None."""
-  line_without_coments = _COMMENT_RE.sub('', file_line.line)
   if file_line.deleted:
     return None
   elif _IsMainCUInclude(file_line, filename):
     return _MAIN_CU_INCLUDE_KIND
-  elif _IsSystemInclude(file_line) and '.' in line_without_coments:
+  elif _IsSystemInclude(file_line) and '.' in file_line.key:
     return _C_SYSTEM_INCLUDE_KIND
   elif _IsSystemInclude(file_line):
     return _CXX_SYSTEM_INCLUDE_KIND
-- 
2.43.0

