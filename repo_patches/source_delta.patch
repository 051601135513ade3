From 22401c52f0665da73014baa76c480fbc5ef822b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:41 +0000
Subject: [PATCH 01/74] fix: provide metatab.rowgenerators, the module named by
 the entry points

The rowgenerators entry points 'metatab+.txt' and '.yaml' name a module that does not
exist, so a Lines (.txt) file can't be opened by metatab URL and 'metatab file.txt' fails.
---
 metatab/rowgenerators.py | 6 ++++++
 1 file changed, 6 insertions(+)
 create mode 100644 metatab/rowgenerators.py

diff --git a/metatab/rowgenerators.py b/metatab/rowgenerators.py
new file mode 100644
index 0000000..bb7255d
--- /dev/null
+++ b/metatab/rowgenerators.py
@@ -0,0 +1,6 @@
+# Copyright (c) 2017 Civic Knowledge. This file is licensed under the terms of the
+# MIT License, included in this distribution as LICENSE.txt
+
+"""The row generators, under the module name that the package's entry points declare"""
+
+from .rowgen import MetatabRowGenerator, TextRowGenerator, YamlMetatabSource
-- 
2.43.0


From a1d2e30acf8644c876165f8498eb52bff78d1b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:41 +0000
Subject: [PATCH 02/74] fix: flatten() uses collections.abc (removed from
 collections in Python 3.10)

---
 metatab/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/util.py b/metatab/util.py
index 368ef30..67c410b 100644
--- a/metatab/util.py
+++ b/metatab/util.py
@@ -55,13 +55,13 @@ def flatten(d, sep='.'):
     """Flatten a data structure into tuples"""
 
     def _flatten(e, parent_key='', sep='.'):
-        import collections
+        import collections.abc
 
         prefix = parent_key + sep if parent_key else ''
 
-        if isinstance(e, collections.MutableMapping):
+        if isinstance(e, collections.abc.MutableMapping):
             return tuple((prefix + k2, v2) for k, v in e.items() for k2, v2 in _flatten(v, k, sep))
-        elif isinstance(e, collections.MutableSequence):
+        elif isinstance(e, collections.abc.MutableSequence):
             return tuple((prefix + k2, v2) for i, v in enumerate(e) for k2, v2 in _flatten(v, str(i), sep))
         else:
             return (parent_key, (e,)),
-- 
2.43.0


From 15e630e9a368272acf2ef419119de7d6d3459f97 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:38:03 +0000
Subject: [PATCH 03/74] fix: attach the properties of a '.Child' row to that
 row's term

The cells of a row written with an elided parent ('.Column,a,int') were attached to the
parent term instead of to the row's own term.
---
 metatab/parser.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index efb820d..2903662 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -496,7 +496,9 @@ class TermParser(object):
                         last_term_map[last_parent_term].add_child(t)
 
                     elif t.is_arg_child:
-                        last_term_map[last_parent_term].add_child(t)
+                        # Argument children belong to the term of their own row, which is not
+                        # last_parent_term when that row has an elided parent.
+                        t.parent.add_child(t)
 
                     else:
                         last_parent_term = t.record_term
-- 
2.43.0


From da0ac31d3c40fed3d8c5a8215051eeb110a10850 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:31 +0000
Subject: [PATCH 04/74] fix: resolve elided parents before synonyms and
 declarations, and look up a term's parent before registering it

A '.Child' row did not get the declared property type, value name and validity that the
written-out 'Parent.Child' row gets, and a 'T.T' row became its own child and was lost.
---
 metatab/parser.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 2903662..f8b2e2f 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -430,6 +430,13 @@ class TermParser(object):
 
             for i, t in enumerate(self.generate_terms(target, self.root)):
 
+                # Elided parent terms refer to the last term that can be a parent. Resolve them first,
+                # so synonyms and declarations apply to them as they do to fully qualified terms
+                has_elided_parent = t.has_elided_parent
+
+                if has_elided_parent:
+                    t.parent_term = last_parent_term # After this t.has_elided_parent will be False
+
                 # Substitute synonyms
                 if t.join_lc in self.synonyms:
                     t.parent_term, t.record_term = Term.split_term_lower(self.synonyms[t.join_lc]);
@@ -448,7 +455,7 @@ class TermParser(object):
                 def munge_param_map(t):
                     return [p.lower() if p else i for i, p in enumerate(t.args)]
 
-                if t.term_is('root.header'):
+                if t.term_is('root.header') and not has_elided_parent:
                     self._param_map = munge_param_map(t)
                     default_term_value_name = t.value.lower()
                     last_section.header_args = t.args
@@ -489,28 +496,24 @@ class TermParser(object):
                     # Only terms with the term name in the first column can be parents of
                     # other terms. This rule excludes argument terms and terms with an elided parent
 
-                    if t.has_elided_parent:
-                        # Elided parent terms refer to the last term that can be a parent
-                        t.parent_term = last_parent_term # After this t.has_elided_parent will be False
-
-                        last_term_map[last_parent_term].add_child(t)
-
-                    elif t.is_arg_child:
+                    if t.is_arg_child:
                         # Argument children belong to the term of their own row, which is not
                         # last_parent_term when that row has an elided parent.
                         t.parent.add_child(t)
 
                     else:
-                        last_parent_term = t.record_term
-                        last_term_map[ELIDED_TERM] = t
-                        last_term_map[t.record_term] = t
-
                         try:
                             last_term_map[t.parent_term].add_child(t)
                         except KeyError:
                             raise ParserError("No parent term for '{}' in term '{}', row = {}"
                                               .format(t.parent_term, t.term, t.row))
 
+                        # Register the term only after it has its parent, which may have the same name
+                        if not has_elided_parent:
+                            last_parent_term = t.record_term
+                            last_term_map[ELIDED_TERM] = t
+                            last_term_map[t.record_term] = t
+
                     if t.parent_term_lc == 'root':
                         last_section.add_term(t)
 
-- 
2.43.0


From b120235c80b51057b754f57d22beabcf8fcec5c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:22 +0000
Subject: [PATCH 05/74] fix: a resumed section, including root, puts its own
 headings and value name in force

After an Include, a Declare or a repeated Section row the headings of the other file or section
stayed in force for the root section, and Header rows were forgotten for the others.
---
 metatab/parser.py | 17 +++++++----------
 1 file changed, 7 insertions(+), 10 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index f8b2e2f..7fffb7a 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -452,27 +452,24 @@ class TermParser(object):
 
                 t.section = last_section
 
-                def munge_param_map(t):
-                    return [p.lower() if p else i for i, p in enumerate(t.args)]
+                def munge_param_map(args):
+                    return [p.lower() if p else i for i, p in enumerate(args)]
 
                 if t.term_is('root.header') and not has_elided_parent:
-                    self._param_map = munge_param_map(t)
+                    self._param_map = munge_param_map(t.args)
                     default_term_value_name = t.value.lower()
                     last_section.header_args = t.args
                     last_section.default_term_value_name = default_term_value_name
                     continue
 
-                elif t.term_is('root.section'):
-                    self._param_map = munge_param_map(t)
+                elif t.term_is('root.section') or t.term_is('root.root'):
+                    # A new section, or one that is resumed, possibly with its own Header
+                    self._param_map = munge_param_map(t.property_names)
                     # Parentage should not persist across sections
                     last_parent_term = self.root.record_term
 
                     last_section = t
-                    default_term_value_name = '@value'
-                    t.section = None
-
-                elif t.term_is('root.root'):
-                    last_section = t
+                    default_term_value_name = t.default_term_value_name
                     t.section = None
 
                 else:
-- 
2.43.0


From cf69ec486a7957fb72d6a295b0167faf285c3124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:23 +0000
Subject: [PATCH 06/74] fix: nested includes, and loops through several files

Relative names in an included file were resolved against 'CsvSource', so nested includes always
failed; included terms did not report their file; after a nested include the root section was in
force; an include loop over several files, or one through the same file, recursed without end;
and a missing or blank file name ended in an unrelated exception instead of an IncludeError.
---
 metatab/parser.py | 57 +++++++++++++++++++++++++++++++++--------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 7fffb7a..572aa6d 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -8,7 +8,7 @@ objects.
 """
 
 from rowgenerators import Source, get_generator, Url, parse_app_url
-from rowgenerators.exceptions import DownloadError
+from rowgenerators.exceptions import RowGeneratorError
 
 ROOT_TERM = 'root'  # No parent term -- no '.' --  in term cell
 
@@ -19,7 +19,7 @@ METATAB_ASSETS_URL = 'http://assets.metatab.org/'
 from .terms import Term, SectionTerm, RootSectionTerm
 
 from .exc import IncludeError, DeclarationError, ParserError, GenerateError
-from os.path import dirname, join, exists
+from os.path import dirname, join, exists, realpath
 from .util import declaration_path, import_name_or_class
 
 from functools import lru_cache
@@ -298,13 +298,20 @@ class TermParser(object):
 
         return parse_app_url(path)
 
-    def generate_terms(self, ref, root, file_type=None):
+    @staticmethod
+    def canonical_ref(url):
+        """Return a string that is the same for all of the references to the same file"""
+
+        return realpath(str(url.fspath)) if url.scheme == 'file' else str(url)
+
+    def generate_terms(self, ref, root, file_type=None, parents=()):
         """An generator that yields term objects, handling includes and argument
         children.
         :param file_type:
         :param doc:
         :param root:
         :param ref:
+        :param parents: Canonical references of the files that are including this one
 
         """
 
@@ -313,11 +320,18 @@ class TermParser(object):
 
         if isinstance(ref, Source):
             row_gen = ref
-            ref_path = row_gen.__class__.__name__
+            ref = row_gen.ref
         else:
             row_gen = get_generator(ref)
-            ref_path = ref.path
 
+        if isinstance(ref, Url):
+            ref_path = ref.path
+            ref_dir = dirname(ref_path) or '.'
+            parents = parents + (self.canonical_ref(ref),)
+        else:
+            # The source has no file, so there is nothing that paths could be relative to
+            ref_path = row_gen.__class__.__name__
+            ref_dir = ''
 
         try:
             for line_n, row in enumerate(row_gen, 1):
@@ -342,33 +356,42 @@ class TermParser(object):
 
                 if t.term_is('include') or t.term_is('declare'):
 
-                    if t.term_is('include'):
-                        resolved = self.find_include_doc(dirname(ref_path), t.value.strip())
-                    else:
-                        resolved = self.find_declare_doc(dirname(ref_path), t.value.strip())
+                    include_term = t
+                    include_ref = (t.value or '').strip()
 
-                    if row_gen.ref == resolved:
-                        raise IncludeError("Include loop for '{}' ".format(resolved))
+                    try:
 
-                    yield t
+                        if not include_ref:
+                            raise IncludeError("No file name in {} term".format(t.record_term))
 
-                    try:
+                        if t.term_is('include'):
+                            resolved = self.find_include_doc(ref_dir, include_ref)
+                        else:
+                            resolved = self.find_declare_doc(ref_dir, include_ref)
+
+                        if self.canonical_ref(resolved) in parents:
+                            raise IncludeError("Include loop for '{}' ".format(resolved))
+
+                        yield t
 
                         sub_gen = get_generator(resolved.get_resource().get_target())
 
-                        for t in self.generate_terms(sub_gen, root, file_type=t.record_term_lc):
+                        # The included terms are a part of the section that includes them
+                        for t in self.generate_terms(sub_gen, last_section,
+                                                     file_type=include_term.record_term_lc, parents=parents):
                             yield t
 
                         if last_section:
                             yield last_section  # Re-assert the last section
 
                     except IncludeError as e:
-                        e.term = t
+                        if getattr(e, 'term', None) is None:
+                            e.term = include_term
                         raise
 
-                    except (OSError,  FileNotFoundError, GenerateError, DownloadError) as e:
+                    except (OSError,  FileNotFoundError, GenerateError, RowGeneratorError) as e:
                         e = IncludeError("Failed to Include; {}".format(e))
-                        e.term = t
+                        e.term = include_term
                         raise e
 
                     continue  # Already yielded the include/declare term, and includes can't have children
-- 
2.43.0


From 4b6e5bffb96c8ddc4c7f0e19591079a2f7ac0965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:49 +0000
Subject: [PATCH 07/74] fix: report bad term names and unnamed sections as
 ParserError, not ValueError or AttributeError

---
 metatab/parser.py | 3 +++
 metatab/terms.py  | 8 ++++++--
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 572aa6d..cabb54b 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -341,6 +341,9 @@ class TermParser(object):
 
                 tt = Term(row[0], None) # Just to get the qualified name constructed property
 
+                if tt.term_is('section') and not (len(row) > 1 and str(row[1] or '').strip()):
+                    raise ParserError("Section without a name in '{}', row = {}".format(ref_path, line_n))
+
                 term_class = self.get_term_class(tt.join_lc)
 
                 t = term_class(tt.join_lc,
diff --git a/metatab/terms.py b/metatab/terms.py
index 057042f..e26784f 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -9,7 +9,7 @@ Special term subclasses
 from os.path import split, basename
 from metatab.util import slugify
 
-from metatab.exc import GenerateError
+from metatab.exc import GenerateError, ParserError
 from metatab.parser import ROOT_TERM, ELIDED_TERM
 
 
@@ -127,7 +127,11 @@ class Term(object):
         """
 
         if '.' in term:
-            parent_term, record_term = term.split('.')
+            try:
+                parent_term, record_term = term.split('.')
+            except ValueError:
+                raise ParserError("Term name '{}' has more than one '.'".format(term))
+
             parent_term, record_term = parent_term.strip(), record_term.strip()
 
             if parent_term == '':
-- 
2.43.0


From db8680246896da97530c0c3ce4fb98714073a4a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:49 +0000
Subject: [PATCH 08/74] fix: a Header row without a value name does not crash
 the parser

---
 metatab/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index cabb54b..17a0832 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -483,7 +483,7 @@ class TermParser(object):
 
                 if t.term_is('root.header') and not has_elided_parent:
                     self._param_map = munge_param_map(t.args)
-                    default_term_value_name = t.value.lower()
+                    default_term_value_name = t.value.lower() if t.value else '@value'
                     last_section.header_args = t.args
                     last_section.default_term_value_name = default_term_value_name
                     continue
-- 
2.43.0


From 24628eaab7b538a1fc66c7d90b9c5d8713bb991b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:43:49 +0000
Subject: [PATCH 09/74] fix: keep zero values, and don't make properties out of
 empty (None) cells

---
 metatab/parser.py | 2 +-
 metatab/terms.py  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 17a0832..b0cd005 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -415,7 +415,7 @@ class TermParser(object):
                 # Yield any child terms, from the term row arguments
                 if not t.term_is('section') and not t.term_is('header'):
                     for col, value in enumerate(t.args, 0):
-                        if str(value).strip():
+                        if value is not None and str(value).strip():
 
                             term_name = t.record_term_lc + '.' + str(col)
 
diff --git a/metatab/terms.py b/metatab/terms.py
index e26784f..0a7306d 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -65,7 +65,8 @@ class Term(object):
 
         self._orig_term = term
 
-        self.value = strip_if_str(value) if value else None
+        # Zero is a value, for rows that have numeric cells
+        self.value = strip_if_str(value) if value or (value == 0 and value is not False) else None
         self.args = [strip_if_str(x) for x in (term_args or [])]
 
         self._section = None
-- 
2.43.0


From cbb58232794dd29566eaa15bb6113f10d415d3ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:03 +0000
Subject: [PATCH 10/74] fix: only rename the cells of a row by the headings,
 not rows whose name is a number

---
 metatab/parser.py | 17 +++++++++--------
 metatab/terms.py  |  2 +-
 2 files changed, 10 insertions(+), 9 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index b0cd005..1acdac3 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -467,14 +467,15 @@ class TermParser(object):
                 if t.join_lc in self.synonyms:
                     t.parent_term, t.record_term = Term.split_term_lower(self.synonyms[t.join_lc]);
 
-                # Remap integer record terms to names from the parameter map
-                try:
-                    t.record_term = str(self._param_map[int(t.record_term)])
-                except ValueError:
-                    pass  # the record term wasn't an integer
-
-                except IndexError:
-                    pass  # Probably no parameter map.
+                # Remap the integer record terms of argument children to names from the parameter map
+                if t.is_arg_child:
+                    try:
+                        t.record_term = str(self._param_map[int(t.record_term)])
+                    except ValueError:
+                        pass  # the record term wasn't an integer
+
+                    except IndexError:
+                        pass  # Probably no parameter map.
 
                 t.section = last_section
 
diff --git a/metatab/terms.py b/metatab/terms.py
index 0a7306d..92340d9 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -490,7 +490,7 @@ class Term(object):
     def is_arg_child(self):
         """Return true if this term was created as a child of another term, from the parent
         term's arguments"""
-        return self.col > 1
+        return self.col is not None and self.col > 1
 
     @property
     def has_elided_parent(self):
-- 
2.43.0


From 1a2f2502e2c1ee56fbd88313ad9135d3e1230c19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:03 +0000
Subject: [PATCH 11/74] fix: write every one of several children with the same
 name

Of repeated children without properties only the last was written, and they were reordered among
children of the same name that have properties.
---
 metatab/terms.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 92340d9..19f5402 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -6,6 +6,7 @@ Special term subclasses
 """
 
 
+from collections import Counter
 from os.path import split, basename
 from metatab.util import slugify
 
@@ -622,12 +623,18 @@ class Term(object):
         assert tvm
         # Terminal children have no arguments, just a value. Here we put the terminal children
         # in a property array, so they can be written to the parent's arg-children columns
-        # if the section has any.
+        # if the section has any. A property holds only one value, so this excludes children that
+        # share a name with another child, or with the value.
 
         properties = {tvm: self.value}
 
+        names = Counter(c.record_term_lc for c in self.children)
+
+        def is_property(c):
+            return c.is_terminal and names[c.record_term_lc] == 1 and c.record_term_lc != tvm.lower()
+
         for c in self.children:
-            if c.is_terminal:
+            if is_property(c):
                 if c.record_term_lc:
                     # This is rare, but can happen if a property child is not given
                     # a property name by the section -- the "Section" term has a blank column.
@@ -635,9 +642,9 @@ class Term(object):
 
         yield (self.qualified_term, properties)
 
-        # The non-terminal children have to get yielded normally -- they can't be arg-children
+        # The other children have to get yielded normally -- they can't be arg-children
         for c in self.children:
-            if not c.is_terminal:
+            if not is_property(c):
                 for row in c.rows:
                     yield row
 
-- 
2.43.0


From 781464f7b0fb8ea96c6a8033eea7f6c977b9d85c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:03 +0000
Subject: [PATCH 12/74] fix: remove 'root.' only from the start of term names
 when writing

---
 metatab/doc.py   | 2 +-
 metatab/terms.py | 9 ++++++++-
 2 files changed, 9 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 1db299e..7b3f5ec 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -803,7 +803,7 @@ class MetatabDoc(object):
             for row in s.rows:
                 term, value = row
 
-                term = term.replace('root.', '').title()
+                term = s.row_name(term)
 
                 try:
                     yield [term] + value
diff --git a/metatab/terms.py b/metatab/terms.py
index 19f5402..e6c38bc 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -948,6 +948,13 @@ class SectionTerm(Term):
                 else:
                     yield row
 
+    @staticmethod
+    def row_name(term):
+        """Return the name for writing a qualified term in a row: without the root, and titled"""
+        prefix = ROOT_TERM + '.'
+
+        return (term[len(prefix):] if term.startswith(prefix) else term).title()
+
     @property
     def lines(self):
         """Iterate over all of the rows as text lines"""
@@ -963,7 +970,7 @@ class SectionTerm(Term):
             if not isinstance(value, (list, tuple)):
                 value = [value]
 
-            term = term.replace('root.', '').title()
+            term = self.row_name(term)
             yield (term, value[0])
 
             children = list(zip(self.property_names, value[1:]))
-- 
2.43.0


From 6d302c52de46b1df10883bfbafcd27dd31b32885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:03 +0000
Subject: [PATCH 13/74] fix: write the headings of the root section, which were
 lost

---
 metatab/doc.py   | 2 ++
 metatab/terms.py | 9 +++++++++
 2 files changed, 11 insertions(+)

diff --git a/metatab/doc.py b/metatab/doc.py
index 7b3f5ec..a52a79c 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -798,6 +798,8 @@ class MetatabDoc(object):
             if s.name != 'Root':
                 yield ['']  # Unecessary, but makes for nice formatting. Should actually be done just before write
                 yield ['Section', s.value] + s.property_names
+            elif s.property_names:
+                yield ['Header'] + s.header_row
 
             # Yield all of the rows for terms in the section
             for row in s.rows:
diff --git a/metatab/terms.py b/metatab/terms.py
index e6c38bc..e9bb58b 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -948,6 +948,13 @@ class SectionTerm(Term):
                 else:
                     yield row
 
+    @property
+    def header_row(self):
+        """The cells of a Header row, for the root section, which has no Section row for its headings"""
+        tvm = self.default_term_value_name
+
+        return [tvm if tvm != '@value' else ''] + self.property_names
+
     @staticmethod
     def row_name(term):
         """Return the name for writing a qualified term in a row: without the root, and titled"""
@@ -962,6 +969,8 @@ class SectionTerm(Term):
         # Yield the section header
         if self.name != 'Root':
             yield ('Section', '|'.join([self.value] + self.property_names))
+        elif self.property_names:
+            yield ('Header', '|'.join(self.header_row))
 
         # Yield all of the rows for terms in the section
         for row in self.rows:
-- 
2.43.0


From 7a26cf1d36a71b56f3e44a09a2aa21b9facb26d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:03 +0000
Subject: [PATCH 14/74] fix: write the root section first, also when the
 sections were sorted

The terms of a root section written after another section would be read as terms of that section.
---
 metatab/doc.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index a52a79c..58d8841 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -788,11 +788,16 @@ class MetatabDoc(object):
 
         return r.as_dict(replace_value_names)
 
+    @property
+    def _sections_root_first(self):
+        """The sections in the order to write them; the root section has no Section row, so it has to be first"""
+        return sorted(self.sections.values(), key=lambda s: s.name != 'Root')
+
     @property
     def rows(self):
         """Iterate over all of the rows"""
 
-        for s_name, s in self.sections.items():
+        for s in self._sections_root_first:
 
             # Yield the section header
             if s.name != 'Root':
@@ -816,7 +821,7 @@ class MetatabDoc(object):
     def lines(self):
         """Iterate over all of the rows as text lines"""
 
-        for s_name, s in self.sections.items():
+        for s in self._sections_root_first:
             yield from s.lines
 
     @property
-- 
2.43.0


From 84150cdfbc52b0ab87e1ac9b4e457d5f8ebbd5c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:03 +0000
Subject: [PATCH 15/74] fix: escape '|' in Lines output, and write values that
 are not strings

The Lines reader splits values at '|' unless it is escaped as '\|'.
---
 metatab/terms.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index e9bb58b..8dbf688 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -966,11 +966,15 @@ class SectionTerm(Term):
     def lines(self):
         """Iterate over all of the rows as text lines"""
 
+        def escape(v):
+            """Escape the column separator"""
+            return str(v).replace('|', r'\|') if v is not None else None
+
         # Yield the section header
         if self.name != 'Root':
-            yield ('Section', '|'.join([self.value] + self.property_names))
+            yield ('Section', '|'.join(escape(e) for e in [self.value] + self.property_names))
         elif self.property_names:
-            yield ('Header', '|'.join(self.header_row))
+            yield ('Header', '|'.join(escape(e) for e in self.header_row))
 
         # Yield all of the rows for terms in the section
         for row in self.rows:
@@ -980,14 +984,14 @@ class SectionTerm(Term):
                 value = [value]
 
             term = self.row_name(term)
-            yield (term, value[0])
+            yield (term, escape(value[0]))
 
             children = list(zip(self.property_names, value[1:]))
 
             for prop, value in children:
-                if value and value.strip():
+                if value is not None and str(value).strip():
                     child_t = '.' + (prop.title())
-                    yield ("    "+child_t, value)
+                    yield ("    "+child_t, escape(value))
 
     def as_lines(self):
         return '\n'.join( '{}: {}'.format(t,v if v is not None else '') for t, v  in self.lines )
-- 
2.43.0


From 0987116b337242382b344f8c76bd9ec09fb54b80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:46:28 +0000
Subject: [PATCH 16/74] fix: a section reports its column, not its row, as the
 column

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 8dbf688..4430d0e 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -704,7 +704,7 @@ class SectionTerm(Term):
         assert section is None
 
         super().__init__(term, value, term_args=section_args,
-                         row=row, col=row, file_name=file_name, file_type=file_type,
+                         row=row, col=col, file_name=file_name, file_type=file_type,
                          parent=parent, doc=doc, section=section)
 
         self.header_args = []  # Set for each header encoundered
-- 
2.43.0


From d431573b293d89e096def0bec4b196403ca7cc0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:51 +0000
Subject: [PATCH 17/74] fix: deleting a section removes its terms for any case
 of the section name

---
 metatab/doc.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 58d8841..abb355f 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -317,9 +317,8 @@ class MetatabDoc(object):
     def __delitem__(self, item):
 
         try:
-            if item in self.sections:
-                for t in self.sections[item]:
-                    self.terms.remove(t)
+            for t in list(self.sections[item.lower()]):
+                self.remove_term(t)
 
             del self.sections[item.lower()]
         except KeyError:
-- 
2.43.0


From 9121e6ca99a902d01741399aa11be709d40e759f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:51 +0000
Subject: [PATCH 18/74] fix: get_or_new_section() does not replace a section
 when its name has capitals

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index abb355f..9351b11 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -271,7 +271,7 @@ class MetatabDoc(object):
 
     def get_or_new_section(self, name, params=None):
         """Create a new section or return an existing one of the same name"""
-        if name not in self.sections:
+        if name.lower() not in self.sections:
             self.sections[name.lower()] = SectionTerm(None, name, term_args=params, doc=self)
 
         return self.sections[name.lower()]
-- 
2.43.0


From 219f54363311c9f2a1305bfce38818b5773fc3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:51 +0000
Subject: [PATCH 19/74] fix: deleting terms from a section by name

It called delete_term(), which does not exist.
---
 metatab/terms.py | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 4430d0e..37183f9 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -897,11 +897,9 @@ class SectionTerm(Term):
 
     def __delitem__(self, item):
         """Delete all terms that match the given name"""
-        for t in self.terms:
-            if t.term.lower() == item.lower():
-                self.delete_term(item)
-
-        return
+        for t in list(self.terms):
+            if t.term_is(item):
+                self.remove_term(t)
 
     def __iter__(self):
         """Iterate over all terms in the section"""
-- 
2.43.0


From 14925972e1f714fd54a38104056409fd9298a1ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:51 +0000
Subject: [PATCH 20/74] fix: a column named like a property of Term, such as
 'Section', does not capture its setter

---
 metatab/terms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index 37183f9..30362a4 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -367,6 +367,11 @@ class Term(object):
             # Not initialized yet; set attributes normally.
             return object.__setattr__(self, item, value)
 
+        elif getattr(getattr(type(self), item, None), 'fset', None):
+            # One of the class's own properties, such as 'section', even if there is also a
+            # column of that name
+            object.__setattr__(self, item, value)
+
         elif item in self.__dict__ and not (item.lower() == self.term_value_name.lower() or item.lower() == 'value'):
             # Value already exists as an attribute in the object, and the name is not
             # the value name
-- 
2.43.0


From b97e0fad02525c878f5d9139b8d764e47ee8ef56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:51 +0000
Subject: [PATCH 21/74] fix: adding or moving a term to another section removes
 it from the old one

It was listed in both sections, and still referred to the old one.
---
 metatab/terms.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index 30362a4..ed443d0 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -762,6 +762,12 @@ class SectionTerm(Term):
         """Add a term to this section and set it's ownership. Should only be used on root level terms"""
         if t not in self.terms:
             if t.parent_term_lc == 'root':
+
+                if t.section is not None and t.section is not self and t.section.doc is self.doc:
+                    # A term is in only one section of a document, so this is a move
+                    t.section.remove_term(t, remove_from_doc=False)
+
+                t.section = self
                 self.terms.append(t)
 
                 self.doc.add_term(t, add_section=False)
-- 
2.43.0


From abafc18f2d75400be48322ce13fffa0958ac23e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:51 +0000
Subject: [PATCH 22/74] fix: testing if a term has a property

Term has no attribute 'properties', so the test raised AttributeError
---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index ed443d0..3e5bf45 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -327,7 +327,7 @@ class Term(object):
         if item.lower() == 'value':
             return True
 
-        return item.lower() in self._common_properties or item.lower() in self.properties
+        return item.lower() in self._common_properties or item.lower() in self.props
 
     def __getattr__(self, item):
         """Maps values to attributes.
-- 
2.43.0


From aa3715b273c77987c4791933944fdd1631d5bbcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:51 +0000
Subject: [PATCH 23/74] fix: set_terms() accepts values of two characters

---
 metatab/terms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index 3e5bf45..e391f79 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -846,6 +846,9 @@ class SectionTerm(Term):
 
         for k,v in kw_terms.items():
             try:
+                if isinstance(v, str): # A two character string would also unpack
+                    raise TypeError(v)
+
                 value, props = v
             except (ValueError, TypeError) as e:
                 value, props = v,{}
-- 
2.43.0


From b97792bc39677b5933ffd506f7bdba032af95b31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:51 +0000
Subject: [PATCH 24/74] fix: get_or_new_term() without a value keeps the value
 of an existing term

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index e391f79..99fc7c4 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -816,7 +816,7 @@ class SectionTerm(Term):
             t = self.new_term(term, value, **kwargs)
 
         else:
-            if value is not None:
+            if value is not None and value is not False:
                 t.value = value
 
             for k, v in kwargs.items():
-- 
2.43.0


From 152a533daa52b1fbcb9727045ed2953e2216751d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:51 +0000
Subject: [PATCH 25/74] fix: convert documents with concatenated terms that
 have properties or numeric values

as_dict() raised TypeError for them.
---
 metatab/terms.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 99fc7c4..4e69692 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -570,6 +570,10 @@ class Term(object):
 
             d = OrderedDict()
 
+            def can_concat(c):
+                """Only plain values can be concatenated"""
+                return c.is_terminal and not isinstance(d.get(c.record_term_lc), (dict, list))
+
             for c in term.children:
 
                 if c.child_property_type == 'scalar':
@@ -582,18 +586,18 @@ class Term(object):
                         # The c.term property doesn't exist, so add a list
                         d[c.record_term_lc] = [cls._convert_to_dict(c, replace_value_names)]
 
-                elif c.child_property_type == 'sconcat': # Concat with a space
+                elif c.child_property_type == 'sconcat' and can_concat(c): # Concat with a space
 
                     if c.record_term_lc in d:
                         s = d[c.record_term_lc] + ' '
                     else:
                         s = ''
 
-                    d[c.record_term_lc] =s + (cls._convert_to_dict(c, replace_value_names) or '')
+                    d[c.record_term_lc] =s + str(cls._convert_to_dict(c, replace_value_names) or '')
 
-                elif c.child_property_type == 'bconcat':  # Concat with a blank
+                elif c.child_property_type == 'bconcat' and can_concat(c):  # Concat with a blank
 
-                    d[c.record_term_lc] = d.get(c.record_term_lc, '') +  (cls._convert_to_dict(c,
+                    d[c.record_term_lc] = d.get(c.record_term_lc, '') +  str(cls._convert_to_dict(c,
                                                                                                replace_value_names)
                                                                           or '')
 
@@ -608,7 +612,7 @@ class Term(object):
 
                         d[c.record_term_lc] = [d[c.record_term]] + [cls._convert_to_dict(c, replace_value_names)]
 
-            if term.value:
+            if term.value or term.value == 0:
                 if replace_value_names:
                     d[term.term_value_name.lower()] = term.value
                 else:
-- 
2.43.0


From b765bae86450b743bfd5d7c1fbdeb3a8390e86f0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:49:51 +0000
Subject: [PATCH 26/74] fix: an empty document converts to an empty dict, not
 to the string 'Root'

---
 metatab/terms.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index 4e69692..7b62883 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -1030,6 +1030,9 @@ class RootSectionTerm(SectionTerm):
         super().__init__('Root.Root', 'Root', [], 0, 0, file_name, file_type, None, doc, None)
 
     def as_dict(self, replace_value_names=True):
+        if not self.terms:
+            return {}
+
         d = super(RootSectionTerm, self).as_dict(replace_value_names)
 
         if replace_value_names and '@value' in d:
-- 
2.43.0


From 04c813dfad91e970fdc6c406e84c3e242bcfa5b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 27/74] fix: as_version() does not change the document's
 version, or fail without one

as_version('+1') incremented the version of the document, so the next call gave another name.
---
 metatab/doc.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 9351b11..a6de009 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -128,7 +128,22 @@ class MetatabDoc(object):
 
         """
 
-        return self._generate_identity_name(ver)
+        # Generating the name updates the version terms, but this is only a question
+        version = self['Root'].find_first('Root.Version')
+
+        if not version:
+            return self._generate_identity_name(ver)
+
+        value, children = version.value, [(c, c.value) for c in version.children]
+
+        try:
+            return self._generate_identity_name(ver)
+        finally:
+            version.value = value
+            version.children = [c for c, _ in children]
+
+            for c, child_value in children:
+                c.value = child_value
 
     @property
     def doc_dir(self):
@@ -738,7 +753,7 @@ class MetatabDoc(object):
 
             try:
                 int(mv)
-            except ValueError:
+            except (ValueError, TypeError):
                 raise MetatabError(
                     "When specifying version math, version value in Root.Version or Version.Patch  term must be an integer")
 
@@ -761,6 +776,8 @@ class MetatabDoc(object):
 
         if mv is None:
             version = None
+        elif not self['Root'].find_first('Root.Version'):
+            version = mv # There is no term to set
         else:
             set_ver(mv)
             version = self.update_version()
-- 
2.43.0


From 4760f998953aa5dcbea2ddf314de910d72bfb692 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 28/74] fix: write the identifier and name that writing sets,
 and keep the old file if encoding fails

---
 metatab/doc.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index a6de009..940003a 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -910,14 +910,17 @@ class MetatabDoc(object):
         else:
             return pathlib.Path(str(path))
 
-    def _write(self, content, path: pathlib.Path, ext=None):
+    def _write(self, render, path: pathlib.Path, ext=None):
 
         self.cleanse()
 
         debug_logger.debug("writing doc {}".format(str(path)))
 
+        # Render after cleanse(), which sets terms, and before opening, which destroys the old file
+        content = render().encode('utf8')
+
         with path.open('wb') as f:
-            f.write(content.encode('utf8'))
+            f.write(content)
 
         return path
 
@@ -928,7 +931,7 @@ class MetatabDoc(object):
         if path.suffix != '.csv':
             raise MetatabError("Writing CSV file, but extension is wrong: {} ".format(str(path)))
 
-        return self._write(self.as_csv(), path)
+        return self._write(self.as_csv, path)
 
     def write_lines(self, path=None):
 
@@ -937,7 +940,7 @@ class MetatabDoc(object):
         if path.suffix != '.txt':
             raise MetatabError("Writing line (txt) file, but extension is wrong: {} ".format(str(path)))
 
-        return self._write(self.as_lines(), path)
+        return self._write(self.as_lines, path)
 
     def write(self, path=None):
 
-- 
2.43.0


From 8c007204a154fead8fe9af84c0c3e361d0ecab94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 29/74] fix: write a document without a reference to the
 default file name

---
 metatab/doc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metatab/doc.py b/metatab/doc.py
index 940003a..9359b8c 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -890,6 +890,9 @@ class MetatabDoc(object):
         else:
             u = self.ref
 
+        if u is None:
+            return pathlib.Path(DEFAULT_METATAB_FILE)
+
         if u.scheme != 'file':
             raise MetatabError("Can't write file to URL '{}'".format(str(path)))
 
-- 
2.43.0


From 07b754a58f8cf6a15454019ba0551e59972aa205 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 30/74] fix: find() expands super terms in lists of terms and
 in unqualified names

It also returns each term once, and in the same order in every run: the derived terms were searched in
the order of a set of strings.
---
 metatab/doc.py | 29 +++++++++++++++--------------
 1 file changed, 15 insertions(+), 14 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 9359b8c..270ed91 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -389,23 +389,24 @@ class MetatabDoc(object):
         # Try to replace the term with the list of its derived terms; that is, replace the super-class with all
         # of the derived classes, but only do this expansion once.
         if _expand_derived:
-            try:
-                try:
-                    # Term is a string
-                    term = list(self.derived_terms[term.lower()]) + [term]
-                except AttributeError:  # Term is hopefully a list
-                    terms = []
-                    for t in term:
-                        terms.append(term)
-                        for dt in self.derived_terms[t.lower()]:
-                            terms.append(dt)
-            except KeyError as e:
-                pass
+
+            terms = []
+
+            for t in ([term] if isinstance(term, str) else term):
+                qualified = t.lower() if '.' in t else 'root.' + t.lower()
+                terms.extend(sorted(self.derived_terms.get(qualified, [])))
+                terms.append(t)
+
+            term = terms
 
         # Find any of a list of terms
         if isinstance(term, (list, tuple)):
-            return list(
-                itertools.chain(*[self.find(e, value=value, section=section, _expand_derived=False) for e in term]))
+
+            found = itertools.chain(
+                *[self.find(e, value=value, section=section, _expand_derived=False) for e in term])
+
+            # Several of the names may match the same term
+            return list({id(t): t for t in found}.values())
 
         else:
 
-- 
2.43.0


From d0618e30a93294e9d56f86ae6573db10caf4d96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 31/74] fix: load_rows() passes its rows to the parser

---
 metatab/doc.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 270ed91..a25431d 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -528,7 +528,8 @@ class MetatabDoc(object):
 
     def load_rows(self, row_generator):
 
-        term_interp = TermParser(self, row_generator)
+        term_interp = TermParser(self.resolver.get_row_generator(row_generator, cache=self._cache),
+                                 resolver=self.resolver, doc=self)
 
         return self.load_terms(term_interp)
 
-- 
2.43.0


From de8316d3be6483f973201261eaf14861603730f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:26 +0000
Subject: [PATCH 32/74] fix: declarations passed to the document, or loaded
 before, apply to all terms

They only applied to root terms, and their super terms were not known.
---
 metatab/doc.py    | 15 ++++++++++-----
 metatab/parser.py | 11 +++++------
 2 files changed, 15 insertions(+), 11 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index a25431d..445f29f 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -187,9 +187,18 @@ class MetatabDoc(object):
 
         self.decl_terms.update(dd['terms'])
         self.decl_sections.update(dd['sections'])
+        self._update_super_terms(term_interp.super_terms())
 
         return self
 
+    def _update_super_terms(self, super_terms):
+        """Set the super terms, and the derived terms, which are the inverse of the super terms"""
+        self.super_terms.update(super_terms)
+
+        kf = lambda e: e[1]  # Sort on the value
+        self.derived_terms = {k: set(e[0] for e in g)
+                              for k, g in groupby(sorted(self.super_terms.items(), key=kf), kf)}
+
     def add_term(self, t, add_section=True):
         t.doc = self
 
@@ -510,11 +519,7 @@ class MetatabDoc(object):
             self.decl_terms.update(dd['terms'])
             self.decl_sections.update(dd['sections'])
 
-            self.super_terms.update(terms.super_terms())
-
-            kf = lambda e: e[1]  # Sort on the value
-            self.derived_terms = {k: set(e[0] for e in g)
-                                  for k, g in groupby(sorted(self.super_terms.items(), key=kf), kf)}
+            self._update_super_terms(terms.super_terms())
 
         except AttributeError as e:
             pass
diff --git a/metatab/parser.py b/metatab/parser.py
index 1acdac3..0665aba 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -81,6 +81,11 @@ class TermParser(object):
 
         self.install_declare_terms()
 
+        # Terms and sections that were declared before, for the whole document
+        if self.doc:
+            self._declared_terms.update(self.doc.decl_terms)
+            self._declared_sections.update(self.doc.decl_sections)
+
     @property
     def path(self):
         """Return the path from the row generator, if it is avilable"""
@@ -122,12 +127,6 @@ class TermParser(object):
     def super_terms(self):
         """Return a dictionary mapping term names to their super terms"""
 
-        # If the doc already has super terms, we've already parsed something, so
-        # assume we parsed the declaration, and can use re-use the old decls.
-        if self.doc and self.doc.super_terms:
-            return self.doc.super_terms
-
-
         return  {k.lower(): v['inheritsfrom'].lower()
                          for k, v in self._declared_terms.items() if 'inheritsfrom' in v}
 
-- 
2.43.0


From ccb7848b107088825733183f743ecd7fd1124d3a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:02 +0000
Subject: [PATCH 33/74] fix: a term can inherit from an unqualified term name

---
 metatab/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 0665aba..6626703 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -127,8 +127,8 @@ class TermParser(object):
     def super_terms(self):
         """Return a dictionary mapping term names to their super terms"""
 
-        return  {k.lower(): v['inheritsfrom'].lower()
-                         for k, v in self._declared_terms.items() if 'inheritsfrom' in v}
+        return  {k.lower(): Term.normalize_term(v['inheritsfrom'])
+                         for k, v in self._declared_terms.items() if v.get('inheritsfrom')}
 
     @property
     def declare_dict(self):
-- 
2.43.0


From 09bc809f7c7a2e2426c08e27e9db8e02a371ca26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:02 +0000
Subject: [PATCH 34/74] fix: terms created with unqualified names get their
 registered class and declared types

---
 metatab/terms.py | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 7b62883..5946723 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -185,17 +185,24 @@ class Term(object):
 
         """
 
-        tc = self.doc.get_term_class(term.lower())
+        tc = self.doc.get_term_class(self.record_term_lc + '.' + self.split_term_lower(term)[1])
 
         c = tc(term, str(value) if value is not None else None,
                parent=self, doc=self.doc, section=self.section).new_children(**kwargs)
 
-        c.term_value_name = self.doc.decl_terms.get(c.join, {}).get('termvaluename', c.term_value_name)
+        c.set_declared()
 
         assert not c.term_is("*.Section")
         self.children.append(c)
         return c
 
+    def set_declared(self):
+        """Set the value name and property type from the declaration of the term, if it has one"""
+        declared = self.doc.decl_terms.get(self.join, {})
+
+        self.term_value_name = declared.get('termvaluename', self.term_value_name)
+        self.child_property_type = declared.get('childpropertytype', self.child_property_type)
+
     def remove_child(self, child):
         """Remove the term from this term's children. """
         assert isinstance(child, Term)
@@ -270,6 +277,7 @@ class Term(object):
         if c is None:
             tc = self.doc.get_term_class(term.lower())
             c = tc(term, value, parent=self, doc=self.doc, section=self.section).new_children(**kwargs)
+            c.set_declared()
             assert not c.term_is("Datafile.Section"), (self, c)
             self.children.append(c)
 
@@ -791,7 +799,7 @@ class SectionTerm(Term):
     def new_term(self, term, value, **kwargs):
         """Create a new root-level term in this section"""
 
-        tc = self.doc.get_term_class(term.lower())
+        tc = self.doc.get_term_class(self.normalize_term(term))
 
         t = tc(term, value, doc=self.doc, parent=None, section=self).new_children(**kwargs)
 
-- 
2.43.0


From 4050f4c63b36259f02599c6066c2b84c61ba2b40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:02 +0000
Subject: [PATCH 35/74] fix: data package conversion of tables with one column,
 columns and files without some properties, and Lines documents

It assumed that all of the properties are cells of the row, that tables have several columns, and that
columns have a type, and raised TypeError, AttributeError or KeyError, or omitted the resource, otherwise.
The identifier was misspelled, so it never served as the name.
---
 metatab/datapackage.py | 37 ++++++++++++++++++++++---------------
 1 file changed, 22 insertions(+), 15 deletions(-)

diff --git a/metatab/datapackage.py b/metatab/datapackage.py
index 356ead5..a9b961d 100644
--- a/metatab/datapackage.py
+++ b/metatab/datapackage.py
@@ -24,43 +24,50 @@ def convert_to_datapackage(doc):
     except KeyError as e:
         pass
 
-    if not 'name' in dp:
-        if 'indentifier' in dp:
-            dp['name'] = dp['indentifier']
+    if not dp.get('name'):
+        if dp.get('identifier'):
+            dp['name'] = dp['identifier']
         else:
             raise ConversionError("Datapackage.json requires a Name or Identity term")
 
     try:
-        table_schemas = {t.value: t.as_dict()['column'] for t in doc['schema']}
+        table_schemas = {t.value: list(t.find('Column')) for t in doc['schema'] if t.term_is('root.table')}
     except KeyError as e:
         raise ConversionError("Failed to get schemas: " + str(e))
 
-    file_resources = [fr.arg_props for fr in doc['resources'] if fr.term_is('root.datafile')]
-
     dp['resources'] = []
 
+    try:
+        file_resources = [fr for fr in doc['resources'] if fr.term_is('root.datafile')]
+    except KeyError:
+        file_resources = []
+
     for r in file_resources:
 
+        name = r.get_value('name')
+
         try:
-            columns = table_schemas[r['name']] if r.get('name', '<none>') in table_schemas else table_schemas[
-                r['table']]
+            columns = table_schemas[name] if name in table_schemas else table_schemas[r.get_value('table')]
         except KeyError as e:
             continue
 
         def mkdict(c):
-            d = {}
+            # The column's own value is its name, whether or not that is declared
+            d = {'name': c.get_value('name') or c.value}
+
+            for prop in ('title', 'description'):
+                if c.get_value(prop):
+                    d[prop] = c.get_value(prop)
 
-            for prop in ('name', 'title', 'description'):
-                if c.get(prop):
-                    d[prop] = c[prop]
+            datatype = c.get_value('datatype')
 
-            d['type'] = type_map.get(c.get('datatype'), c.get('datatype'))
+            d['type'] = type_map.get(datatype, datatype)
 
             return d
 
         dr = dict(
-            path=r['url'],
-            name=r['name'],
+            path=r.get_value('url') or r.value,
+            name=name,
             schema={'fields': [mkdict(c) for c in columns]}
         )
 
-- 
2.43.0


From ed0ef52a27f9f4011ee8a8606e7050135306ede1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:51:44 +0000
Subject: [PATCH 36/74] fix: report missing files, bad files and terms that are
 not found on the command line without a traceback

Also writes output files in UTF-8 in every locale.
---
 metatab/cli.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/metatab/cli.py b/metatab/cli.py
index 1463823..7639a73 100644
--- a/metatab/cli.py
+++ b/metatab/cli.py
@@ -9,7 +9,8 @@ import json
 import sys
 from genericpath import exists
 
-from metatab import  DEFAULT_METATAB_FILE, MetatabDoc, parse_app_url
+from metatab import  DEFAULT_METATAB_FILE, MetatabDoc, MetatabError, parse_app_url
+from rowgenerators.exceptions import RowGeneratorError
 from rowgenerators.util import get_cache, clean_cache
 from os.path import dirname
 from rowgenerators.util import fs_join as join
@@ -75,7 +76,12 @@ def metatab():
         args.file = DEFAULT_METATAB_FILE + args.file
 
     if args.create is not False:
-        if new_metatab_file(args.file, args.create):
+        try:
+            created = new_metatab_file(args.file, args.create)
+        except (IOError, MetatabError, RowGeneratorError) as e:
+            err("Failed to create '{}': {}".format(args.file, e))
+
+        if created:
             prt("Created ", args.file)
         else:
             warn("File",args.file,'already exists.')
@@ -85,7 +91,7 @@ def metatab():
     metadata_url = parse_app_url(args.file, proto='metatab')
     try:
         doc = MetatabDoc(metadata_url, cache=cache)
-    except IOError as e:
+    except (IOError, MetatabError, RowGeneratorError) as e:
 
         err("Failed to open '{}': {}".format(metadata_url, e))
 
@@ -99,7 +105,7 @@ def metatab():
         ext = 'txt' if args.out_type == 'line' else args.out_type
 
         if args.write_in_place:
-            with metadata_url.fspath.with_suffix('.'+ext).open('w') as f:
+            with metadata_url.fspath.with_suffix('.'+ext).open('w', encoding='utf8') as f:
                 f.write(t)
         else:
             print(t)
@@ -125,8 +131,11 @@ def metatab():
     elif args.find_first:
 
         t = doc.find_first(args.find_first)
-        print(t.value)
 
+        if t is None:
+            err("Did not find term '{}'".format(args.find_first))
+
+        print(t.value)
 
     elif args.out_type == 'terms':
         for t in doc._term_parser:
-- 
2.43.0


From 989f4623b6e21a1656413544c153a83d7b9d2a59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:54:01 +0000
Subject: [PATCH 37/74] fix: report declarations without a name as
 DeclarationError

---
 metatab/parser.py | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/metatab/parser.py b/metatab/parser.py
index 6626703..46a3a53 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -567,6 +567,9 @@ class TermParser(object):
 
     def add_declared_section(self, t):
 
+        if not t.value:
+            raise DeclarationError("DeclareSection without a name in '{}', row = {}".format(t.file_name, t.row))
+
         self._declared_sections[t.value.lower()] = {
             'args': [e.strip() for e in t.args if e.strip()],  # FIXME Very suspicious
             'terms': []
@@ -610,6 +613,9 @@ class TermParser(object):
     def add_declared_term(self, t):
         from .exc import DeclarationError
 
+        if not t.value:
+            raise DeclarationError("DeclareTerm without a term name in '{}', row = {}".format(t.file_name, t.row))
+
         term_name = Term.normalize_term(t.value)
 
         td = {k: v for k, v in t.arg_props.items() if v.strip()}
-- 
2.43.0


From a19ae75d28da55554d124a72a1a5ccd72483a18c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:03:45 +0000
Subject: [PATCH 38/74] fix: includes relative to a directory that has a space
 in its name

---
 metatab/parser.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 46a3a53..1f5cd3d 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -324,7 +324,8 @@ class TermParser(object):
             row_gen = get_generator(ref)
 
         if isinstance(ref, Url):
-            ref_path = ref.path
+            # The path of a file URL is quoted, which is not its path in the file system
+            ref_path = str(ref.fspath) if ref.scheme == 'file' else ref.path
             ref_dir = dirname(ref_path) or '.'
             parents = parents + (self.canonical_ref(ref),)
         else:
-- 
2.43.0


From 8671c405c2c534a897f63452aa453162a189decd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:13 +0000
Subject: [PATCH 39/74] fix: a section without headings gets the headings from
 a declaration in the same document

---
 metatab/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metatab/parser.py b/metatab/parser.py
index 1f5cd3d..4f96dd8 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -410,6 +410,10 @@ class TermParser(object):
                     except (KeyError, TypeError): # TypeError -> self.doc is None
                         last_section = t
 
+                        if not t.args:
+                            # The section may have been declared earlier in the same document
+                            t.args = list(self._declared_sections.get(t.name.lower(), {}).get('args', []))
+
                 yield t
 
                 # Yield any child terms, from the term row arguments
-- 
2.43.0


From a191243284f0b36ab9a27eebf045776d054651df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:08:13 +0000
Subject: [PATCH 40/74] fix: inherit from a term that has children which were
 declared without a section

---
 metatab/parser.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 4f96dd8..d9d1080 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -633,6 +633,9 @@ class TermParser(object):
 
             section_name = td.get('section', '').lower()
 
+            if not section_name:
+                return
+
             if section_name.lower() not in self._declared_sections:
                 raise DeclarationError(("Section '{}' is referenced in a term but was not "
                                         "previously declared with DeclareSection, in '{}'")
@@ -644,12 +647,11 @@ class TermParser(object):
 
                 st.append(td['term'])
 
-        if td.get('section'):
-            add_term_to_section(td)
+        add_term_to_section(td)
 
-        for t in self.inherited_children(td):
-            self._declared_terms[Term.normalize_term(t['term'])] = t
-            add_term_to_section(t)
+        for child_td in self.inherited_children(td):
+            self._declared_terms[Term.normalize_term(child_td['term'])] = child_td
+            add_term_to_section(child_td)
 
     def add_value_set_value(self, t):
 
-- 
2.43.0


From c72cdca74f056c9c320d1dcb54608377affe079b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:45:41 +0000
Subject: [PATCH 41/74] fix: a new term gets its declared value name also in a
 section that has a Header row

---
 metatab/terms.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index 5946723..959fa69 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -804,6 +804,7 @@ class SectionTerm(Term):
         t = tc(term, value, doc=self.doc, parent=None, section=self).new_children(**kwargs)
 
         self.doc.add_term(t)
+        t.set_declared()
         return t
 
     def get_term(self, term, value=False):
-- 
2.43.0


From 3bac836a7a18cae8f545996d9b3d406ba42ff29f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:05:04 +0000
Subject: [PATCH 42/74] fix: terms can have a child named Section, as rows with
 a Section column do

---
 metatab/terms.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 959fa69..d198cad 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -174,7 +174,6 @@ class Term(object):
         assert isinstance(child, Term)
         self.children.append(child)
         child.parent = self
-        assert not child.term_is("Datafile.Section")
 
     def new_child(self, term, value, **kwargs):
         """Create a new term and add it to this term as a child. Creates grandchildren from the kwargs.
@@ -192,7 +191,6 @@ class Term(object):
 
         c.set_declared()
 
-        assert not c.term_is("*.Section")
         self.children.append(c)
         return c
 
@@ -278,7 +276,6 @@ class Term(object):
             tc = self.doc.get_term_class(term.lower())
             c = tc(term, value, parent=self, doc=self.doc, section=self.section).new_children(**kwargs)
             c.set_declared()
-            assert not c.term_is("Datafile.Section"), (self, c)
             self.children.append(c)
 
         else:
-- 
2.43.0


From 272b31555d0f158821ee7f24340b397247ab1605 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:42 +0000
Subject: [PATCH 43/74] fix: reading only some of a document's rows does not
 raise when the reader stops

---
 metatab/doc.py | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 445f29f..054cd3b 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -835,10 +835,7 @@ class MetatabDoc(object):
 
                 term = s.row_name(term)
 
-                try:
-                    yield [term] + value
-                except:
-                    yield [term] + [value]
+                yield [term] + (value if isinstance(value, list) else [value])
 
     @property
     def lines(self):
-- 
2.43.0


From 74a9cc08cb94d3d4ee17f6093b60e18c587422ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:07:42 +0000
Subject: [PATCH 44/74] fix: read Lines files as UTF-8, as they are written

---
 metatab/rowgen.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/rowgen.py b/metatab/rowgen.py
index 0a40a3c..928703c 100644
--- a/metatab/rowgen.py
+++ b/metatab/rowgen.py
@@ -126,7 +126,7 @@ class TextRowGenerator(MetatabRowGenerator):
 
             try:
                 # Pathlib Path
-                with ref.open() as r:
+                with ref.open(encoding='utf8') as r:
                     text = r.read()
                 break
             except:
@@ -141,7 +141,7 @@ class TextRowGenerator(MetatabRowGenerator):
 
             try:
                 # Url
-                with ref.inner.fspath.open() as f:
+                with ref.inner.fspath.open(encoding='utf8') as f:
                     text = f.read()
                 break
             except:
@@ -150,7 +150,7 @@ class TextRowGenerator(MetatabRowGenerator):
 
             try:
                 # File name
-                with open(ref) as r:
+                with open(ref, encoding='utf8') as r:
                     text = r.read()
                 break
             except:
-- 
2.43.0


From 526341e7b1c8a9d2cd4d6427b97f64fe8c0ceffd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:12:48 +0000
Subject: [PATCH 45/74] fix: version math on a number that is not whole is
 refused, not truncated

---
 metatab/doc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metatab/doc.py b/metatab/doc.py
index 054cd3b..2211685 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -760,6 +760,9 @@ class MetatabDoc(object):
 
             try:
                 int(mv)
+
+                if isinstance(mv, float) and not mv.is_integer():
+                    raise ValueError(mv)
             except (ValueError, TypeError):
                 raise MetatabError(
                     "When specifying version math, version value in Root.Version or Version.Patch  term must be an integer")
-- 
2.43.0


From 845e143992e7e99fe7716e31582478dfe726fd99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:31:23 +0000
Subject: [PATCH 46/74] fix: show the declaration of a file that has a space in
 its name, and report bad declarations without a traceback

---
 metatab/cli.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metatab/cli.py b/metatab/cli.py
index 7639a73..1f22499 100644
--- a/metatab/cli.py
+++ b/metatab/cli.py
@@ -114,7 +114,13 @@ def metatab():
 
     if args.show_declaration:
 
-        decl_doc = MetatabDoc('', cache=cache, decl=metadata_url.path)
+        # The path of a file URL is quoted, which is not its path in the file system
+        decl_path = str(metadata_url.fspath) if metadata_url.scheme == 'file' else metadata_url.path
+
+        try:
+            decl_doc = MetatabDoc('', cache=cache, decl=decl_path)
+        except (IOError, MetatabError, RowGeneratorError) as e:
+            err("Failed to load declaration '{}': {}".format(decl_path, e))
 
         d = {
             'terms': decl_doc.decl_terms,
-- 
2.43.0


From 251f383979bdd2d0921ade19332d053e731cfc8f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:34:14 +0000
Subject: [PATCH 47/74] fix: convert concatenated terms when an earlier one,
 before the declaration, has no value or a number

---
 metatab/terms.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index d198cad..4fc73d9 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -579,6 +579,11 @@ class Term(object):
                 """Only plain values can be concatenated"""
                 return c.is_terminal and not isinstance(d.get(c.record_term_lc), (dict, list))
 
+            def before(c):
+                """The text to append to. A term that came before its declaration may have no value, or a number"""
+                v = d.get(c.record_term_lc)
+                return str(v) if v is not None else ''
+
             for c in term.children:
 
                 if c.child_property_type == 'scalar':
@@ -594,7 +599,7 @@ class Term(object):
                 elif c.child_property_type == 'sconcat' and can_concat(c): # Concat with a space
 
                     if c.record_term_lc in d:
-                        s = d[c.record_term_lc] + ' '
+                        s = before(c) + ' '
                     else:
                         s = ''
 
@@ -602,7 +607,7 @@ class Term(object):
 
                 elif c.child_property_type == 'bconcat' and can_concat(c):  # Concat with a blank
 
-                    d[c.record_term_lc] = d.get(c.record_term_lc, '') +  str(cls._convert_to_dict(c,
+                    d[c.record_term_lc] = before(c) +  str(cls._convert_to_dict(c,
                                                                                                replace_value_names)
                                                                           or '')
 
-- 
2.43.0


From 40f879d07f091c3cd8197fea58a2c0c667cade9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:39 +0000
Subject: [PATCH 48/74] fix: the target file of a metatab url without a
 directory, with a query, or with a name that ends in metadata.csv

---
 metatab/appurl.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/appurl.py b/metatab/appurl.py
index 479926a..3892ddf 100644
--- a/metatab/appurl.py
+++ b/metatab/appurl.py
@@ -60,13 +60,13 @@ class MetatabUrl(InnerFile, Url):
     @property
     def resource_file(self):
 
-        assert basename(self.resource_url)
+        assert basename(self.path)
 
-        return basename(self.resource_url)
+        return basename(self.path)
 
     @property
     def target_file(self):
-        if self.path.endswith(DEFAULT_METATAB_FILE):
+        if basename(self.path) == DEFAULT_METATAB_FILE:
             return DEFAULT_METATAB_FILE
         elif self.resource_format in self.simple_file_formats:
             return self.resource_file
-- 
2.43.0


From 68d2b367d00f20db8758a9a8f1d8c9c056462d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:49:50 +0000
Subject: [PATCH 49/74] fix: a metatab url of a workbook reads the 'meta'
 sheet, wherever it is in the workbook

---
 metatab/appurl.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/metatab/appurl.py b/metatab/appurl.py
index 3892ddf..7f47e5d 100644
--- a/metatab/appurl.py
+++ b/metatab/appurl.py
@@ -77,6 +77,15 @@ class MetatabUrl(InnerFile, Url):
         else:
             return self.resource_file
 
+    @property
+    def target_segment(self):
+        """The worksheet to read from a workbook"""
+        return 'meta' if self.resource_format == 'xlsx' else self._parts.get('target_segment')
+
+    @target_segment.setter
+    def target_segment(self, v):
+        self._parts['target_segment'] = v
+
     @property
     def target_format(self):
         if self.resource_format in self.simple_file_formats:
-- 
2.43.0


From 3edc68f06792efb099ed00beab3fa7abded8a1b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:51:16 +0000
Subject: [PATCH 50/74] fix: the document of a metatab url of a Lines file

---
 metatab/appurl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/appurl.py b/metatab/appurl.py
index 7f47e5d..22229a5 100644
--- a/metatab/appurl.py
+++ b/metatab/appurl.py
@@ -102,7 +102,7 @@ class MetatabUrl(InnerFile, Url):
         """Return the metatab document for the URL"""
         from metatab import MetatabDoc
         t = self.get_resource().get_target()
-        return MetatabDoc(t.inner)
+        return MetatabDoc(t)
 
     @property
     def generator(self):
-- 
2.43.0


From c48bb7ba77bbafec55f4f63a56dd5af927c88322 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:52:08 +0000
Subject: [PATCH 51/74] fix: a metatab url of a zip archive opens its metadata
 file, not its first file

---
 metatab/appurl.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metatab/appurl.py b/metatab/appurl.py
index 22229a5..8c813c5 100644
--- a/metatab/appurl.py
+++ b/metatab/appurl.py
@@ -127,7 +127,14 @@ class MetatabUrl(InnerFile, Url):
         return MetatabUrl(str(u), downloader=self._downloader)
 
     def get_target(self):
-        return MetatabUrl(str(self.inner.get_target()), downloader=self._downloader)
+
+        inner = self.inner
+
+        if self.resource_format == 'zip':
+            # Otherwise, the target is the first file in the archive
+            inner = inner.join_target(self.target_file)
+
+        return MetatabUrl(str(inner.get_target()), downloader=self._downloader)
 
     def join_target(self, tf):
 
-- 
2.43.0


From 6c114386dc87c523ed82b40c278a244e08e1f079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:54 +0000
Subject: [PATCH 52/74] fix: updating the name uses only the terms of the root
 section, and does not change a Name in another section

---
 metatab/doc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 2211685..bc91b13 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -671,7 +671,7 @@ class MetatabDoc(object):
 
         self.ensure_identifier()
 
-        name_term = self.find_first('Root.Name')
+        name_term = self.find_first('Root.Name', section='Root')
 
         if not name_term:
             if create_term:
@@ -682,9 +682,9 @@ class MetatabDoc(object):
 
         orig_name = name_term.value
 
-        identifier = self.get_value('Root.Identifier')
+        identifier = self.get_value('Root.Identifier', section='Root')
 
-        datasetname = self.get_value('Root.Dataset')
+        datasetname = self.get_value('Root.Dataset', section='Root')
 
         if datasetname:
 
-- 
2.43.0


From eaf43418682fe7bc9904e0aff9f5ae85bfa1f625 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:54 +0000
Subject: [PATCH 53/74] fix: removing a term of a deleted section does not
 bring the section back

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index bc91b13..907bb35 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -253,7 +253,7 @@ class MetatabDoc(object):
         except ValueError:
             pass
 
-        if t.section and t.parent_term_lc == 'root':
+        if t.section and t.parent_term_lc == 'root' and t.section.value in self:
             t.section = self.add_section(t.section)
             t.section.remove_term(t, remove_from_doc=False)
 
-- 
2.43.0


From 0754bb907a4ef9132925f5c4b8236f7f40bc37b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:54 +0000
Subject: [PATCH 54/74] fix: cleaning up the schema keeps zeros, numbers and
 properties with children, adds headings in a definite order, and accepts
 documents without a schema

---
 metatab/doc.py | 26 +++++++++++++++-----------
 1 file changed, 15 insertions(+), 11 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 907bb35..ae6202c 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -562,32 +562,36 @@ class MetatabDoc(object):
     def clean_unused_schema_terms(self):
 
         # Remove unused columns in the schema, and add new ones
-        schema_section = self.get_section('Schema')
+        schema_section = self.get_section('Schema', None)
+
+        def is_empty(term):
+            return term.value is None or not str(term.value).strip()
 
         if schema_section:
-            used_args = set()
+            used_args = []  # In the order of their first use
             section_args = [e.lower() for e in schema_section.args]
 
             for table in schema_section.find('Root.Table'):
-                for column in table.find('Table.Column'):
-                    for k, v in column.props.items():
-                        if v and v.strip():
-                            used_args.add(k)
+                for column in table.find('Column'):
+                    for child in column.children:
+                        if not is_empty(child) and child.record_term_lc not in used_args:
+                            used_args.append(child.record_term_lc)
 
-            for arg in set(section_args) - used_args:
+            for arg in set(section_args) - set(used_args):
                 try:
                     schema_section.remove_arg(arg.title())
                 except ValueError as e:
                     pass
 
-            for arg in used_args - set(section_args):
-                schema_section.add_arg(arg)
+            for arg in used_args:
+                if arg not in section_args:
+                    schema_section.add_arg(arg)
 
             # Remove any empty properties
             for t in schema_section.find('Root.Table'):
-                for c in t.find('Table.Column'):
+                for c in t.find('Column'):
                     for child in list(c.children):
-                        if not child.value or not child.value.strip():
+                        if is_empty(child) and not child.children:
                             c.remove_child(child)
 
     def ensure_identifier(self):
-- 
2.43.0


From 2331451099c296b9c74558200a9f8c66b7b3336f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:54 +0000
Subject: [PATCH 55/74] fix: all_props does not report properties that were
 removed

---
 metatab/terms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 4fc73d9..49209e9 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -547,7 +547,9 @@ class Term(object):
         """Return a dictionary with the values of all children, and place holders for all of the section
         argumemts. It combines props and arg_props"""
 
-        d = self.arg_props
+        # The args are the cells that the term was created with, so only their names are current
+        d = {k: '' for k in self.arg_props}
+        d[self.term_value_name.lower()] = self.value
         d.update(self.props)
 
         return d
-- 
2.43.0


From f4d208a7bd082337b8c987a13b81ffe750655665 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:25:54 +0000
Subject: [PATCH 56/74] fix: joining a target to a metatab url does not print

---
 metatab/appurl.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/metatab/appurl.py b/metatab/appurl.py
index 8c813c5..1110a2f 100644
--- a/metatab/appurl.py
+++ b/metatab/appurl.py
@@ -138,8 +138,6 @@ class MetatabUrl(InnerFile, Url):
 
     def join_target(self, tf):
 
-        print("Type=", type(self))
-
         if self.target_file == DEFAULT_METATAB_FILE:
             return self.inner.join_dir(tf)
         else:
-- 
2.43.0


From 48873ff2df745d5acf7f2074ad390d07cf12d198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:56:57 +0000
Subject: [PATCH 57/74] fix: report a row named Root as ParserError, not
 TypeError

---
 metatab/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metatab/parser.py b/metatab/parser.py
index d9d1080..d1ebf0c 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -344,6 +344,9 @@ class TermParser(object):
                 if tt.term_is('section') and not (len(row) > 1 and str(row[1] or '').strip()):
                     raise ParserError("Section without a name in '{}', row = {}".format(ref_path, line_n))
 
+                if tt.term_is('root'):
+                    raise ParserError("'Root' is the root section, not a term, in '{}', row = {}".format(ref_path, line_n))
+
                 term_class = self.get_term_class(tt.join_lc)
 
                 t = term_class(tt.join_lc,
-- 
2.43.0


From 7633d58d5f21a6aa70521a2ca8dcc52bcb8f6b9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:35:27 +0000
Subject: [PATCH 58/74] fix: the path, directory and modification time of
 documents from files with quoted characters in their path, and from rows

---
 metatab/doc.py | 14 +++++---------
 1 file changed, 5 insertions(+), 9 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index ae6202c..7c4fd4f 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -67,7 +67,7 @@ class MetatabDoc(object):
 
                 if self._ref.scheme == 'file':
                     try:
-                        self._mtime = getmtime(self._ref.path)
+                        self._mtime = getmtime(str(self._ref.fspath))
                     except (FileNotFoundError, OSError):
                         self._mtime = 0
                 else:
@@ -75,6 +75,7 @@ class MetatabDoc(object):
 
             except AppUrlError as e:  # ref is probably a generator, not a string or Url
                 self._ref = None
+                self._mtime = time()
 
             self._term_parser = TermParser(ref, resolver=self.resolver, doc=self)
 
@@ -97,15 +98,10 @@ class MetatabDoc(object):
     def path(self):
         """Return the path to the file, if the ref is a file"""
 
-        if not isinstance(self.ref, str):
+        if not self.ref or self.ref.scheme != 'file':
             return None
 
-        u = parse_app_url(self.ref)
-
-        if u.inner.proto != 'file':
-            return None
-
-        return u.path
+        return str(self.ref.fspath)
 
     @property
     def cache(self):
@@ -154,7 +150,7 @@ class MetatabDoc(object):
             return None
 
         u = parse_app_url(self.ref)
-        return abspath(dirname(u.path))
+        return abspath(dirname(str(u.fspath) if u.scheme == 'file' else u.path))
 
     @classmethod
     def register_term_class(cls, term_name, class_or_name):
-- 
2.43.0


From fdcfaad9a9d941128cc74a08155cc5f5785bcf65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:11:18 +0000
Subject: [PATCH 59/74] fix: zero is a value when values are concatenated

---
 metatab/terms.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 49209e9..f018a51 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -586,6 +586,11 @@ class Term(object):
                 v = d.get(c.record_term_lc)
                 return str(v) if v is not None else ''
 
+            def text(c):
+                """The text to append. Zero is a value, for rows that have numeric cells"""
+                v = cls._convert_to_dict(c, replace_value_names)
+                return str(v) if v is not None else ''
+
             for c in term.children:
 
                 if c.child_property_type == 'scalar':
@@ -605,13 +610,11 @@ class Term(object):
                     else:
                         s = ''
 
-                    d[c.record_term_lc] =s + str(cls._convert_to_dict(c, replace_value_names) or '')
+                    d[c.record_term_lc] = s + text(c)
 
                 elif c.child_property_type == 'bconcat' and can_concat(c):  # Concat with a blank
 
-                    d[c.record_term_lc] = before(c) +  str(cls._convert_to_dict(c,
-                                                                                               replace_value_names)
-                                                                          or '')
+                    d[c.record_term_lc] = before(c) + text(c)
 
                 else:
                     try:
-- 
2.43.0


From 89ec277a791c2ef45eac7bd7b35ddd5ad905c20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:13:59 +0000
Subject: [PATCH 60/74] fix: the property dictionaries have an entry for every
 heading, for rows with fewer cells

---
 metatab/terms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index f018a51..bba0998 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -535,7 +535,10 @@ class Term(object):
          term's section. Use props to get values of all children and
         arg props combined"""
 
-        d = dict(zip([str(e).lower() for e in self.section.property_names], self.args))
+        names = [str(e).lower() for e in self.section.property_names]
+
+        # The row may have fewer cells than the section has columns
+        d = dict(zip(names, self.args + [''] * len(names)))
 
         # print({ c.record_term_lc:c.value for c in self.children})
         d[self.term_value_name.lower()] = self.value
-- 
2.43.0


From 0de569c690988f534d6f2d4961732f922b8caa42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:16:12 +0000
Subject: [PATCH 61/74] fix: a term taken over from another document leaves
 that document's sections alone

---
 metatab/doc.py   | 7 ++++++-
 metatab/terms.py | 3 +++
 2 files changed, 9 insertions(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 7c4fd4f..d6a0d7c 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -210,7 +210,12 @@ class MetatabDoc(object):
             self.terms.append(t)
 
         if add_section and t.section and t.parent_term_lc == 'root':
-            t.section = self.add_section(t.section)
+            if t.section.doc is self:
+                t.section = self.add_section(t.section)
+            else:
+                # A foreign section stays in its document, with its other terms
+                t.section = self.get_or_new_section(t.section.name, t.section.property_names)
+
             t.section.add_term(t)
 
         if not t.child_property_type or t.child_property_type == 'any':
diff --git a/metatab/terms.py b/metatab/terms.py
index bba0998..eb6563c 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -789,6 +789,9 @@ class SectionTerm(Term):
                     # A term is in only one section of a document, so this is a move
                     t.section.remove_term(t, remove_from_doc=False)
 
+                if t.parent is not None and t.parent is not self.doc.root:
+                    t.parent = None  # The root of another document, which the term came from
+
                 t.section = self
                 self.terms.append(t)
 
-- 
2.43.0


From 664d65f7d7c1a42dd0cb5a50943481557b130f36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 02:55:43 +0000
Subject: [PATCH 62/74] fix: the terms of declaration files are not part of the
 document that declares them

---
 metatab/parser.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index d1ebf0c..c8a59f9 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -452,6 +452,9 @@ class TermParser(object):
         last_term_map[ELIDED_TERM] = self.root
         last_term_map[self.root.record_term] = self.root
 
+        # The terms of declaration files aren't part of the document, so they can't be parents of its terms
+        declare_term_map = dict(last_term_map)
+
         yield self.root
 
         try:
@@ -467,6 +470,8 @@ class TermParser(object):
                 # so synonyms and declarations apply to them as they do to fully qualified terms
                 has_elided_parent = t.has_elided_parent
 
+                term_map = declare_term_map if t.file_type == 'declare' else last_term_map
+
                 if has_elided_parent:
                     t.parent_term = last_parent_term # After this t.has_elided_parent will be False
 
@@ -534,18 +539,22 @@ class TermParser(object):
 
                     else:
                         try:
-                            last_term_map[t.parent_term].add_child(t)
+                            parent = term_map[t.parent_term]
                         except KeyError:
                             raise ParserError("No parent term for '{}' in term '{}', row = {}"
                                               .format(t.parent_term, t.term, t.row))
 
+                        # Declare terms aren't part of document
+                        if t.file_type != 'declare' or parent is not self.root:
+                            parent.add_child(t)
+
                         # Register the term only after it has its parent, which may have the same name
                         if not has_elided_parent:
                             last_parent_term = t.record_term
-                            last_term_map[ELIDED_TERM] = t
-                            last_term_map[t.record_term] = t
+                            term_map[ELIDED_TERM] = t
+                            term_map[t.record_term] = t
 
-                    if t.parent_term_lc == 'root':
+                    if t.parent_term_lc == 'root' and (t.file_type != 'declare' or last_section.file_type == 'declare'):
                         last_section.add_term(t)
 
                 if t.file_type == 'declare':
-- 
2.43.0


From a1c933274c075b3b4c6dd100188044d14af594d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:15 +0000
Subject: [PATCH 63/74] fix: documents from the web can be printed, only
 writing them in place is refused

---
 metatab/cli.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metatab/cli.py b/metatab/cli.py
index 1f22499..c09f508 100644
--- a/metatab/cli.py
+++ b/metatab/cli.py
@@ -98,13 +98,13 @@ def metatab():
     def write_or_print(t):
         from pathlib import Path
 
-        if metadata_url.scheme != 'file':
-            err("Can only use -w with local files")
-            return
-
         ext = 'txt' if args.out_type == 'line' else args.out_type
 
         if args.write_in_place:
+            if metadata_url.scheme != 'file':
+                err("Can only use -w with local files")
+                return
+
             with metadata_url.fspath.with_suffix('.'+ext).open('w', encoding='utf8') as f:
                 f.write(t)
         else:
-- 
2.43.0


From 19c707725557ad4f646ec9876b05d55d28c9018a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:06:15 +0000
Subject: [PATCH 64/74] fix: relative includes and declarations of web
 documents, and include loops on the web

---
 metatab/parser.py | 29 ++++++++++++++++++++++++-----
 1 file changed, 24 insertions(+), 5 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index c8a59f9..f6052b7 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -20,6 +20,7 @@ from .terms import Term, SectionTerm, RootSectionTerm
 
 from .exc import IncludeError, DeclarationError, ParserError, GenerateError
 from os.path import dirname, join, exists, realpath
+from urllib.parse import urljoin
 from .util import declaration_path, import_name_or_class
 
 from functools import lru_cache
@@ -271,7 +272,13 @@ class TermParser(object):
                 path = name
                 break
             else:
-                path = self.resolver.find_decl_doc(name)
+                try:
+                    path = self.resolver.find_decl_doc(name)
+                except IncludeError:
+                    if not d.startswith(('http:', 'https:')):
+                        raise
+                    # The directory is on the web, so it can't be searched
+                    path = urljoin(d + '/', name if name.endswith('.csv') else name + '.csv')
                 break
 
             raise IncludeError("No local declaration file for '{}'".format(name))
@@ -295,15 +302,18 @@ class TermParser(object):
 
             path = join(d, include_ref)
 
+            if d.startswith(('http:', 'https:')):
+                path = urljoin(d + '/', include_ref)
+
         return parse_app_url(path)
 
     @staticmethod
     def canonical_ref(url):
         """Return a string that is the same for all of the references to the same file"""
 
-        return realpath(str(url.fspath)) if url.scheme == 'file' else str(url)
+        return realpath(str(url.fspath)) if url.scheme == 'file' else str(url.inner)
 
-    def generate_terms(self, ref, root, file_type=None, parents=()):
+    def generate_terms(self, ref, root, file_type=None, parents=(), url=None):
         """An generator that yields term objects, handling includes and argument
         children.
         :param file_type:
@@ -311,6 +321,7 @@ class TermParser(object):
         :param root:
         :param ref:
         :param parents: Canonical references of the files that are including this one
+        :param url: The URL that the file was retrieved from, if it is from the web
 
         """
 
@@ -328,6 +339,11 @@ class TermParser(object):
             ref_path = str(ref.fspath) if ref.scheme == 'file' else ref.path
             ref_dir = dirname(ref_path) or '.'
             parents = parents + (self.canonical_ref(ref),)
+
+            if url is not None and url.scheme in ('http', 'https'):
+                # The file is a copy in the cache, but its paths are relative to where it came from
+                ref_dir = dirname(url.resource_url)
+                parents = parents + (self.canonical_ref(url),)
         else:
             # The source has no file, so there is nothing that paths could be relative to
             ref_path = row_gen.__class__.__name__
@@ -384,7 +400,8 @@ class TermParser(object):
 
                         # The included terms are a part of the section that includes them
                         for t in self.generate_terms(sub_gen, last_section,
-                                                     file_type=include_term.record_term_lc, parents=parents):
+                                                     file_type=include_term.record_term_lc, parents=parents,
+                                                     url=resolved):
                             yield t
 
                         if last_section:
@@ -459,12 +476,14 @@ class TermParser(object):
 
         try:
             target = self._ref.get_resource().get_target() # An AppUrl
+            url = self._ref
         except AttributeError as e:
             target = self._ref # Hopefully a generator
+            url = None
 
         try:
 
-            for i, t in enumerate(self.generate_terms(target, self.root)):
+            for i, t in enumerate(self.generate_terms(target, self.root, url=url)):
 
                 # Elided parent terms refer to the last term that can be a parent. Resolve them first,
                 # so synonyms and declarations apply to them as they do to fully qualified terms
-- 
2.43.0


From 355004e1a432acfcc6cb75554a5076435be1351f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:08:18 +0000
Subject: [PATCH 65/74] fix: the names of included files can start with http

---
 metatab/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index f6052b7..81de276 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -293,7 +293,7 @@ class TermParser(object):
 
         include_ref = name.strip('/')
 
-        if include_ref.startswith('http'):
+        if include_ref.startswith(('http:', 'https:')):
             path = include_ref
         else:
             if not d:
-- 
2.43.0


From a5c7532dacd06ae86d65e2ef4c147d489cd300a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 03:34:46 +0000
Subject: [PATCH 66/74] fix: printing the stream of terms parses the file as it
 was parsed for the document

---
 metatab/cli.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/metatab/cli.py b/metatab/cli.py
index c09f508..4c8de33 100644
--- a/metatab/cli.py
+++ b/metatab/cli.py
@@ -9,7 +9,7 @@ import json
 import sys
 from genericpath import exists
 
-from metatab import  DEFAULT_METATAB_FILE, MetatabDoc, MetatabError, parse_app_url
+from metatab import  DEFAULT_METATAB_FILE, MetatabDoc, MetatabError, TermParser, parse_app_url
 from rowgenerators.exceptions import RowGeneratorError
 from rowgenerators.util import get_cache, clean_cache
 from os.path import dirname
@@ -144,8 +144,14 @@ def metatab():
         print(t.value)
 
     elif args.out_type == 'terms':
-        for t in doc._term_parser:
-            print(t)
+        # Parsing again for the same document would start with the sections and headings that it ends with
+        def print_terms(terms):
+            for t in terms:
+                print(t)
+                yield t
+
+        term_doc = MetatabDoc(cache=cache)
+        term_doc.load_terms(print_terms(TermParser(metadata_url, doc=term_doc)))
 
     elif args.out_type == 'json':
         write_or_print(json.dumps(doc.as_dict(), indent=4))
-- 
2.43.0


From 0528ef0bf5b05b42403b6c6bd5491418c911d911 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 04:11:43 +0000
Subject: [PATCH 67/74] fix: a declaration that replaces one the document
 already has governs the terms after it

---
 metatab/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metatab/parser.py b/metatab/parser.py
index 81de276..bd92939 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -599,6 +599,11 @@ class TermParser(object):
         elif t.term_is('value.*'):
             self.add_value_set_value(t)
 
+        if self.doc and t.term_is(('root.declaresection', 'root.declareterm')):
+            # The document may already have a declaration that this one replaces
+            self.doc.decl_terms.update(self._declared_terms)
+            self.doc.decl_sections.update(self._declared_sections)
+
         self.super_terms.cache_clear()
 
     def add_declared_section(self, t):
-- 
2.43.0


From 89bb95d0af124086820b60000a130fcd0c6a5678 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:34:43 +0000
Subject: [PATCH 68/74] fix: converting a section to a dictionary does not give
 it children while it lasts

---
 metatab/terms.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index eb6563c..90ae2b7 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -7,6 +7,7 @@ Special term subclasses
 
 
 from collections import Counter
+from copy import copy
 from os.path import split, basename
 from metatab.util import slugify
 
@@ -1036,14 +1037,10 @@ class SectionTerm(Term):
 
     def as_dict(self, replace_value_names=True):
         """Return the whole section as a dict"""
-        old_children = self.children
-        self.children = self.terms
+        section = copy(self)  # The section itself has no children, also while other threads read it
+        section.children = self.terms
 
-        d = super(SectionTerm, self).as_dict(replace_value_names)
-
-        self.children = old_children
-
-        return d
+        return self._convert_to_dict(section, replace_value_names)
 
 
 class RootSectionTerm(SectionTerm):
-- 
2.43.0


From f887d2ffa3fd9a79dcf5d9d36f2900543e2804ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:03 +0000
Subject: [PATCH 69/74] fix: a synonym of a synonym stands for the last term,
 as it does when the document is read back

---
 metatab/parser.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index bd92939..538b207 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -494,9 +494,11 @@ class TermParser(object):
                 if has_elided_parent:
                     t.parent_term = last_parent_term # After this t.has_elided_parent will be False
 
-                # Substitute synonyms
-                if t.join_lc in self.synonyms:
-                    t.parent_term, t.record_term = Term.split_term_lower(self.synonyms[t.join_lc]);
+                # Substitute synonyms, which may be synonyms of synonyms
+                synonyms = self.synonyms
+
+                while t.join_lc in synonyms:
+                    t.parent_term, t.record_term = Term.split_term_lower(synonyms.pop(t.join_lc));
 
                 # Remap the integer record terms of argument children to names from the parameter map
                 if t.is_arg_child:
-- 
2.43.0


From d510874c347bc5c6bf2d43a5dcd5b5d7a1823eeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:18:37 +0000
Subject: [PATCH 70/74] fix: a version that is declared to inherit from Version
 has parts of its own name

---
 metatab/doc.py | 32 +++++++++++++++++---------------
 1 file changed, 17 insertions(+), 15 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index d6a0d7c..00c15b2 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -615,10 +615,11 @@ class MetatabDoc(object):
         if not version:
             return False
 
+        # Not qualified, because the version may be a term that is declared to inherit from Version
         return any([
-            version.find_first('Version.Major'),
-            version.find_first('Version.Minor'),
-            version.find_first('Version.Patch')
+            version.find_first('Major'),
+            version.find_first('Minor'),
+            version.find_first('Patch')
         ])
 
     def update_version(self):
@@ -628,9 +629,9 @@ class MetatabDoc(object):
         if not version:
             return None
 
-        major = version.find_first('Version.Major')
-        minor = version.find_first('Version.Minor')
-        patch = version.find_first('Version.Patch')
+        major = version.find_first('Major')
+        minor = version.find_first('Minor')
+        patch = version.find_first('Patch')
 
         # If none are defined, this isn't a semantic version
         # so just return the Version value.
@@ -639,9 +640,9 @@ class MetatabDoc(object):
 
         # if one of the exists, they all have to exist,
         # and this is a semantic version
-        for term, term_name in ((major, 'Version.Major'),
-                                (minor, 'Version.Minor'),
-                                (patch, 'Version.Patch')):
+        for term, term_name in ((major, 'Major'),
+                                (minor, 'Minor'),
+                                (patch, 'Patch')):
 
             if not term:
                 term = version.new_child(term_name, 1)
@@ -649,9 +650,9 @@ class MetatabDoc(object):
             if term.value is None:
                 term.value = 0
 
-        major = version.find_first('Version.Major')
-        minor = version.find_first('Version.Minor')
-        patch = version.find_first('Version.Patch')
+        major = version.find_first('Major')
+        minor = version.find_first('Minor')
+        patch = version.find_first('Patch')
 
         assert all([major, minor, patch])
 
@@ -660,7 +661,7 @@ class MetatabDoc(object):
 
         version.value = templ.format(*values)
 
-        build = version.find_first('Version.Build')
+        build = version.find_first('Build')
         if build:
             templ += '.{}'
             values = values + (build.value,)
@@ -739,10 +740,11 @@ class MetatabDoc(object):
 
         if self._has_semver():
             # Modifyable part is the patch
-            mv = self['Root'].get_value('Version.Patch')
+            patch = self['Root'].find_first('Root.Version').find_first('Patch')
+            mv = patch.value
 
             def set_ver(mv):
-                self['Root'].find_first('Version.Patch').value = mv
+                patch.value = mv
 
         else:
             # Modifyable part is the whole version
-- 
2.43.0


From a8755701721e06768b1588db2e40866416e3a996 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:19:23 +0000
Subject: [PATCH 71/74] fix: a property that is set to a text with spaces
 around it has that text

---
 metatab/terms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 90ae2b7..5fd4244 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -324,7 +324,9 @@ class Term(object):
         else:
             c = self.get_or_new_child(item, value)
 
-            # There is a bug where these two values may be different by a trailing space
+            if value:
+                c.value = value  # A new term removes the spaces around its value
+
             assert self[item].value == value or (self[item].value is None and value == ''), \
                 "Item value '{}' is different from set value '{}' ".format(self[item].value, value)
 
-- 
2.43.0


From afdb2148e6112799101b5be4c62c70fcbe514583 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 07:40:37 +0000
Subject: [PATCH 72/74] fix: names with letters that have no title case of
 their own keep their name when written (titled)

---
 metatab/doc.py   |  2 +-
 metatab/terms.py | 10 +++++-----
 metatab/util.py  |  9 +++++++++
 3 files changed, 15 insertions(+), 6 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 00c15b2..fae38ea 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -580,7 +580,7 @@ class MetatabDoc(object):
 
             for arg in set(section_args) - set(used_args):
                 try:
-                    schema_section.remove_arg(arg.title())
+                    schema_section.remove_arg(arg)
                 except ValueError as e:
                     pass
 
diff --git a/metatab/terms.py b/metatab/terms.py
index 5fd4244..4b06fd6 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -9,7 +9,7 @@ Special term subclasses
 from collections import Counter
 from copy import copy
 from os.path import split, basename
-from metatab.util import slugify
+from metatab.util import slugify, titled
 
 from metatab.exc import GenerateError, ParserError
 from metatab.parser import ROOT_TERM, ELIDED_TERM
@@ -770,9 +770,9 @@ class SectionTerm(Term):
 
         if arg.lower() not in [e.lower() for e in self.args]:
             if prepend:
-                self.args = [arg.title()] + self.args
+                self.args = [titled(arg)] + self.args
             else:
-                self.args.append(arg.title())
+                self.args.append(titled(arg))
 
     def remove_arg(self, arg):
         """Remove an arg to the arg list"""
@@ -1001,7 +1001,7 @@ class SectionTerm(Term):
         """Return the name for writing a qualified term in a row: without the root, and titled"""
         prefix = ROOT_TERM + '.'
 
-        return (term[len(prefix):] if term.startswith(prefix) else term).title()
+        return titled(term[len(prefix):] if term.startswith(prefix) else term)
 
     @property
     def lines(self):
@@ -1031,7 +1031,7 @@ class SectionTerm(Term):
 
             for prop, value in children:
                 if value is not None and str(value).strip():
-                    child_t = '.' + (prop.title())
+                    child_t = '.' + titled(prop)
                     yield ("    "+child_t, escape(value))
 
     def as_lines(self):
diff --git a/metatab/util.py b/metatab/util.py
index 67c410b..a3fde76 100644
--- a/metatab/util.py
+++ b/metatab/util.py
@@ -51,6 +51,15 @@ def slugify(value):
     return value
 
 
+def titled(name):
+    """Return the name in title case, or as it is if it would then be another name, because the upper
+    case of one of its letters is also that of another letter"""
+
+    title = name.title()
+
+    return title if title.lower() == name.lower() else name
+
+
 def flatten(d, sep='.'):
     """Flatten a data structure into tuples"""
 
-- 
2.43.0


From ca3de0f0ec7a61cc8723a35b8e2f743d6a260df3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:29:40 +0000
Subject: [PATCH 73/74] fix: names, headings and section names that are numbers
 are read as their text

---
 metatab/parser.py | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 538b207..6c4c687 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -313,6 +313,15 @@ class TermParser(object):
 
         return realpath(str(url.fspath)) if url.scheme == 'file' else str(url.inner)
 
+    @staticmethod
+    def cell_text(value):
+        """Return the text of a cell that holds a name. The cells of a spreadsheet may be numbers"""
+
+        if isinstance(value, float) and value.is_integer():
+            value = int(value)  # Excel likes to make integers into floats
+
+        return value if value is None or isinstance(value, str) else str(value)
+
     def generate_terms(self, ref, root, file_type=None, parents=(), url=None):
         """An generator that yields term objects, handling includes and argument
         children.
@@ -352,10 +361,16 @@ class TermParser(object):
         try:
             for line_n, row in enumerate(row_gen, 1):
 
-                if not row or not row[0] or not row[0].strip() or row[0].strip().startswith('#'):
+                name = self.cell_text(row[0]) if row else None
+
+                if not name or not name.strip() or name.strip().startswith('#'):
                     continue
 
-                tt = Term(row[0], None) # Just to get the qualified name constructed property
+                tt = Term(name, None) # Just to get the qualified name constructed property
+
+                if file_type == 'declare' or tt.term_is(['section', 'header', 'include', 'declare']):
+                    # The cells are names, and those of spreadsheets may be numbers
+                    row = [self.cell_text(e) for e in row]
 
                 if tt.term_is('section') and not (len(row) > 1 and str(row[1] or '').strip()):
                     raise ParserError("Section without a name in '{}', row = {}".format(ref_path, line_n))
-- 
2.43.0


From bdc80b7e2a1425f7757e4f69df325a3fb94856ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 08:47:23 +0000
Subject: [PATCH 74/74] fix: a term that is declared again without a super term
 is no longer found as a kind of it

---
 metatab/doc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metatab/doc.py b/metatab/doc.py
index fae38ea..4a040fc 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -191,6 +191,9 @@ class MetatabDoc(object):
         """Set the super terms, and the derived terms, which are the inverse of the super terms"""
         self.super_terms.update(super_terms)
 
+        # A later declaration of a term replaces an earlier one, which may have been the one that inherits
+        self.super_terms = {k: v for k, v in self.super_terms.items() if self.decl_terms.get(k, {}).get('inheritsfrom')}
+
         kf = lambda e: e[1]  # Sort on the value
         self.derived_terms = {k: set(e[0] for e in g)
                               for k, g in groupby(sorted(self.super_terms.items(), key=kf), kf)}
-- 
2.43.0

