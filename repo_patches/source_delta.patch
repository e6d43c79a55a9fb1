From b981f5c3ff5f930b8dbd2e0c5cbad90e92fe57b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:23 +0000
Subject: [PATCH 01/52] fix: write every child when several children of a term
 share a name

---
 metatab/terms.py | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 057042f..35ae42b 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -6,6 +6,7 @@ Special term subclasses
 """
 
 
+from collections import Counter
 from os.path import split, basename
 from metatab.util import slugify
 
@@ -621,8 +622,15 @@ class Term(object):
 
         properties = {tvm: self.value}
 
+        # A property column holds only one value, so children that share a name have to be written as rows,
+        # in order, or all but one of them would be lost.
+        name_counts = Counter(c.record_term_lc for c in self.children)
+
+        def is_property(c):
+            return c.is_terminal and name_counts[c.record_term_lc] == 1
+
         for c in self.children:
-            if c.is_terminal:
+            if is_property(c):
                 if c.record_term_lc:
                     # This is rare, but can happen if a property child is not given
                     # a property name by the section -- the "Section" term has a blank column.
@@ -632,7 +640,7 @@ class Term(object):
 
         # The non-terminal children have to get yielded normally -- they can't be arg-children
         for c in self.children:
-            if not c.is_terminal:
+            if not is_property(c):
                 for row in c.rows:
                     yield row
 
-- 
2.43.0


From 47ee08a1f27dc4c0279afaf17910f7278511b871 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:43 +0000
Subject: [PATCH 02/52] fix: only strip a leading 'root.' from term names when
 writing rows and lines

---
 metatab/doc.py   | 3 ++-
 metatab/terms.py | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 1db299e..2c373ef 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -8,6 +8,7 @@ import collections
 import csv
 import logging
 import pathlib
+import re
 from collections import OrderedDict
 from collections.abc import MutableSequence
 from itertools import groupby
@@ -803,7 +804,7 @@ class MetatabDoc(object):
             for row in s.rows:
                 term, value = row
 
-                term = term.replace('root.', '').title()
+                term = re.sub(r'^root\.', '', term).title()
 
                 try:
                     yield [term] + value
diff --git a/metatab/terms.py b/metatab/terms.py
index 35ae42b..0b4fd19 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -6,6 +6,7 @@ Special term subclasses
 """
 
 
+import re
 from collections import Counter
 from os.path import split, basename
 from metatab.util import slugify
@@ -959,7 +960,7 @@ class SectionTerm(Term):
             if not isinstance(value, (list, tuple)):
                 value = [value]
 
-            term = term.replace('root.', '').title()
+            term = re.sub(r'^root\.', '', term).title()
             yield (term, value[0])
 
             children = list(zip(self.property_names, value[1:]))
-- 
2.43.0


From 91a87a80016bac83e8eb979c05989108b2190132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:37:43 +0000
Subject: [PATCH 03/52] fix: escape column separators in values written as
 Lines

---
 metatab/terms.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 0b4fd19..dd7df54 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -949,9 +949,13 @@ class SectionTerm(Term):
     def lines(self):
         """Iterate over all of the rows as text lines"""
 
+        def escape(v):
+            """Escape the column separator, as the Lines reader expects"""
+            return v.replace('|', '\\|') if isinstance(v, str) else v
+
         # Yield the section header
         if self.name != 'Root':
-            yield ('Section', '|'.join([self.value] + self.property_names))
+            yield ('Section', '|'.join(escape(e) for e in [self.value] + self.property_names))
 
         # Yield all of the rows for terms in the section
         for row in self.rows:
@@ -961,14 +965,14 @@ class SectionTerm(Term):
                 value = [value]
 
             term = re.sub(r'^root\.', '', term).title()
-            yield (term, value[0])
+            yield (term, escape(value[0]))
 
             children = list(zip(self.property_names, value[1:]))
 
             for prop, value in children:
                 if value and value.strip():
                     child_t = '.' + (prop.title())
-                    yield ("    "+child_t, value)
+                    yield ("    "+child_t, escape(value))
 
     def as_lines(self):
         return '\n'.join( '{}: {}'.format(t,v if v is not None else '') for t, v  in self.lines )
-- 
2.43.0


From 0ecf7503b197fe3a052a901ccef6f439e93563db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:25 +0000
Subject: [PATCH 04/52] fix: deleting a section by a mixed case name also
 removes its terms

---
 metatab/doc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 2c373ef..12d794f 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -318,8 +318,8 @@ class MetatabDoc(object):
     def __delitem__(self, item):
 
         try:
-            if item in self.sections:
-                for t in self.sections[item]:
+            if item.lower() in self.sections:
+                for t in self.sections[item.lower()]:
                     self.terms.remove(t)
 
             del self.sections[item.lower()]
-- 
2.43.0


From ac59c58191e57efe8561eef21aff8fdee7f3a2e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:25 +0000
Subject: [PATCH 05/52] fix: get_or_new_section() must not replace an existing
 section

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 12d794f..025db9e 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -272,7 +272,7 @@ class MetatabDoc(object):
 
     def get_or_new_section(self, name, params=None):
         """Create a new section or return an existing one of the same name"""
-        if name not in self.sections:
+        if name.lower() not in self.sections:
             self.sections[name.lower()] = SectionTerm(None, name, term_args=params, doc=self)
 
         return self.sections[name.lower()]
-- 
2.43.0


From 3eb7b61c14cfe08ff8aee28d3fd1d51c9cb08a44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:25 +0000
Subject: [PATCH 06/52] fix: deleting terms from a section by name

---
 metatab/terms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index dd7df54..b6741ac 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -894,9 +894,9 @@ class SectionTerm(Term):
 
     def __delitem__(self, item):
         """Delete all terms that match the given name"""
-        for t in self.terms:
-            if t.term.lower() == item.lower():
-                self.delete_term(item)
+        for t in list(self.terms):
+            if t.term_is(item):
+                self.remove_term(t)
 
         return
 
-- 
2.43.0


From 7dd1589ccb609cfc23000e8b0a0e7e45a9afa2ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:25 +0000
Subject: [PATCH 07/52] fix: 'in' operator on a term raised AttributeError

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index b6741ac..efab5c6 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -323,7 +323,7 @@ class Term(object):
         if item.lower() == 'value':
             return True
 
-        return item.lower() in self._common_properties or item.lower() in self.properties
+        return item.lower() in self._common_properties or item.lower() in self.props
 
     def __getattr__(self, item):
         """Maps values to attributes.
-- 
2.43.0


From dfb4131d6397a3216ed704ef2305a62638ec11a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:39:25 +0000
Subject: [PATCH 08/52] fix: load_rows() constructs the term parser with the
 wrong arguments

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 025db9e..42fd5dd 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -514,7 +514,7 @@ class MetatabDoc(object):
 
     def load_rows(self, row_generator):
 
-        term_interp = TermParser(self, row_generator)
+        term_interp = TermParser(row_generator, resolver=self.resolver, doc=self)
 
         return self.load_terms(term_interp)
 
-- 
2.43.0


From 5d05c61c248c5e9acb5916f82b451ea9caba6749 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:40:36 +0000
Subject: [PATCH 09/52] fix: use the column names of a section that is
 re-opened, or returned to after an Include

---
 metatab/parser.py | 27 +++++++++++++++------------
 1 file changed, 15 insertions(+), 12 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index efb820d..a453dc7 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -379,6 +379,13 @@ class TermParser(object):
                     # rather than a new one.
                     try:
                         last_section = self.doc[t.name]
+
+                        # The row may re-open the section with a different set of columns
+                        if any(str(e).strip() for e in row[2:]):
+                            last_section.args = t.args
+                            last_section.header_args = []
+                            last_section.default_term_value_name = '@value'
+
                         t = last_section
 
                     except (KeyError, TypeError): # TypeError -> self.doc is None
@@ -387,7 +394,7 @@ class TermParser(object):
                 yield t
 
                 # Yield any child terms, from the term row arguments
-                if not t.term_is('section') and not t.term_is('header'):
+                if not isinstance(t, SectionTerm) and not t.term_is('header'):
                     for col, value in enumerate(t.args, 0):
                         if str(value).strip():
 
@@ -445,27 +452,23 @@ class TermParser(object):
 
                 t.section = last_section
 
-                def munge_param_map(t):
-                    return [p.lower() if p else i for i, p in enumerate(t.args)]
+                def munge_param_map(args):
+                    return [p.lower() if p else i for i, p in enumerate(args)]
 
                 if t.term_is('root.header'):
-                    self._param_map = munge_param_map(t)
-                    default_term_value_name = t.value.lower()
+                    self._param_map = munge_param_map(t.args)
+                    default_term_value_name = (t.value or '@value').lower()
                     last_section.header_args = t.args
                     last_section.default_term_value_name = default_term_value_name
                     continue
 
-                elif t.term_is('root.section'):
-                    self._param_map = munge_param_map(t)
+                elif t.term_is('root.section') or t.term_is('root.root'):
+                    self._param_map = munge_param_map(t.property_names)
                     # Parentage should not persist across sections
                     last_parent_term = self.root.record_term
 
                     last_section = t
-                    default_term_value_name = '@value'
-                    t.section = None
-
-                elif t.term_is('root.root'):
-                    last_section = t
+                    default_term_value_name = t.default_term_value_name
                     t.section = None
 
                 else:
-- 
2.43.0


From 2e8e9570db596bd8202e4e42094217ad97929324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:16 +0000
Subject: [PATCH 10/52] fix: flatten() uses names that were removed from
 collections

---
 metatab/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/util.py b/metatab/util.py
index 368ef30..65354e7 100644
--- a/metatab/util.py
+++ b/metatab/util.py
@@ -55,13 +55,13 @@ def flatten(d, sep='.'):
     """Flatten a data structure into tuples"""
 
     def _flatten(e, parent_key='', sep='.'):
-        import collections
+        from collections.abc import MutableMapping, MutableSequence
 
         prefix = parent_key + sep if parent_key else ''
 
-        if isinstance(e, collections.MutableMapping):
+        if isinstance(e, MutableMapping):
             return tuple((prefix + k2, v2) for k, v in e.items() for k2, v2 in _flatten(v, k, sep))
-        elif isinstance(e, collections.MutableSequence):
+        elif isinstance(e, MutableSequence):
             return tuple((prefix + k2, v2) for i, v in enumerate(e) for k2, v2 in _flatten(v, str(i), sep))
         else:
             return (parent_key, (e,)),
-- 
2.43.0


From b9c327fd46d64c2a15a2ce849b1ae10e5e50e292 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:16 +0000
Subject: [PATCH 11/52] fix: as_version() must not change the version of the
 document

---
 metatab/doc.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 42fd5dd..54686bf 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -129,7 +129,17 @@ class MetatabDoc(object):
 
         """
 
-        return self._generate_identity_name(ver)
+        # Generating the name updates the version terms, so restore them afterward.
+        versions = [(v, list(v.children), [(t, t.value) for t in [v] + v.children])
+                    for v in self.find('Root.Version')]
+
+        try:
+            return self._generate_identity_name(ver)
+        finally:
+            for v, children, values in versions:
+                v.children = children
+                for t, value in values:
+                    t.value = value
 
     @property
     def doc_dir(self):
-- 
2.43.0


From 37d457a7ec56d47ea35f99c0faf5d6724f098eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:16 +0000
Subject: [PATCH 12/52] fix: cleanse the document before serializing it, so the
 written file has the changes

---
 metatab/doc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 54686bf..cabf896 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -900,8 +900,6 @@ class MetatabDoc(object):
 
     def _write(self, content, path: pathlib.Path, ext=None):
 
-        self.cleanse()
-
         debug_logger.debug("writing doc {}".format(str(path)))
 
         with path.open('wb') as f:
@@ -916,6 +914,8 @@ class MetatabDoc(object):
         if path.suffix != '.csv':
             raise MetatabError("Writing CSV file, but extension is wrong: {} ".format(str(path)))
 
+        self.cleanse()
+
         return self._write(self.as_csv(), path)
 
     def write_lines(self, path=None):
@@ -925,6 +925,8 @@ class MetatabDoc(object):
         if path.suffix != '.txt':
             raise MetatabError("Writing line (txt) file, but extension is wrong: {} ".format(str(path)))
 
+        self.cleanse()
+
         return self._write(self.as_lines(), path)
 
     def write(self, path=None):
-- 
2.43.0


From 52a27f8676768397793d2939b78345dc522b1c48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:16 +0000
Subject: [PATCH 13/52] fix: write a Section row for the Root section when it
 has columns or is not first

---
 metatab/doc.py | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index cabf896..6e74381 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -803,10 +803,11 @@ class MetatabDoc(object):
     def rows(self):
         """Iterate over all of the rows"""
 
-        for s_name, s in self.sections.items():
+        for i, s in enumerate(self.sections.values()):
 
-            # Yield the section header
-            if s.name != 'Root':
+            # Yield the section header. The Root section only needs one to name its columns, or
+            # to return to it from some other section.
+            if s.name != 'Root' or s.property_names or i > 0:
                 yield ['']  # Unecessary, but makes for nice formatting. Should actually be done just before write
                 yield ['Section', s.value] + s.property_names
 
@@ -825,7 +826,12 @@ class MetatabDoc(object):
     def lines(self):
         """Iterate over all of the rows as text lines"""
 
-        for s_name, s in self.sections.items():
+        for i, s in enumerate(self.sections.values()):
+
+            # Return to the Root section, if it isn't first
+            if s.name == 'Root' and i > 0:
+                yield ('Section', s.value)
+
             yield from s.lines
 
     @property
-- 
2.43.0


From 49373aeacad2c200559248f81507018528b55429 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:16 +0000
Subject: [PATCH 14/52] fix: the rowgenerators entry points refer to a module
 that does not exist

---
 metatab/rowgenerators.py | 6 ++++++
 1 file changed, 6 insertions(+)
 create mode 100644 metatab/rowgenerators.py

diff --git a/metatab/rowgenerators.py b/metatab/rowgenerators.py
new file mode 100644
index 0000000..ca0ba8d
--- /dev/null
+++ b/metatab/rowgenerators.py
@@ -0,0 +1,6 @@
+# Copyright (c) 2017 Civic Knowledge. This file is licensed under the terms of the
+# MIT License, included in this distribution as LICENSE.txt
+
+"""Module name used by the 'rowgenerators' entry points. The implementation is in metatab.rowgen """
+
+from metatab.rowgen import YamlMetatabSource, MetatabRowGenerator, TextRowGenerator
-- 
2.43.0


From e4543bbd67d80f939bee7808e14501f3289e21ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:41:56 +0000
Subject: [PATCH 15/52] fix: convert documents with no Name, or with columns
 that have only a name, to a datapackage

---
 metatab/datapackage.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metatab/datapackage.py b/metatab/datapackage.py
index 356ead5..a09d8a8 100644
--- a/metatab/datapackage.py
+++ b/metatab/datapackage.py
@@ -25,8 +25,8 @@ def convert_to_datapackage(doc):
         pass
 
     if not 'name' in dp:
-        if 'indentifier' in dp:
-            dp['name'] = dp['indentifier']
+        if 'identifier' in dp:
+            dp['name'] = dp['identifier']
         else:
             raise ConversionError("Datapackage.json requires a Name or Identity term")
 
@@ -50,6 +50,9 @@ def convert_to_datapackage(doc):
         def mkdict(c):
             d = {}
 
+            if not isinstance(c, dict):  # The column has only a name, no other properties
+                c = {'name': c}
+
             for prop in ('name', 'title', 'description'):
                 if c.get(prop):
                     d[prop] = c[prop]
-- 
2.43.0


From c8761a461305d521d083de768ef5f7a9b2662765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:22 +0000
Subject: [PATCH 16/52] fix: nested and relative includes, and detection of
 include loops and missing files

---
 metatab/parser.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index a453dc7..d1f5b1b 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -8,7 +8,7 @@ objects.
 """
 
 from rowgenerators import Source, get_generator, Url, parse_app_url
-from rowgenerators.exceptions import DownloadError
+from rowgenerators.exceptions import RowGeneratorError
 
 ROOT_TERM = 'root'  # No parent term -- no '.' --  in term cell
 
@@ -19,7 +19,7 @@ METATAB_ASSETS_URL = 'http://assets.metatab.org/'
 from .terms import Term, SectionTerm, RootSectionTerm
 
 from .exc import IncludeError, DeclarationError, ParserError, GenerateError
-from os.path import dirname, join, exists
+from os.path import dirname, join, exists, realpath
 from .util import declaration_path, import_name_or_class
 
 from functools import lru_cache
@@ -298,25 +298,35 @@ class TermParser(object):
 
         return parse_app_url(path)
 
-    def generate_terms(self, ref, root, file_type=None):
+    @staticmethod
+    def document_id(ref):
+        """Return a value that is the same for all of the references to the same document"""
+        return realpath(ref.path), ref.target_file, ref.target_segment
+
+    def generate_terms(self, ref, root, file_type=None, section=None, include_refs=()):
         """An generator that yields term objects, handling includes and argument
         children.
         :param file_type:
         :param doc:
         :param root:
         :param ref:
+        :param section: The section that is current where the document is included
+        :param include_refs: The documents that are currently being included, to detect loops
 
         """
 
-        last_section = root
+        last_section = section or root
         t = None
 
         if isinstance(ref, Source):
             row_gen = ref
             ref_path = row_gen.__class__.__name__
+            ref_dir = None
         else:
             row_gen = get_generator(ref)
             ref_path = ref.path
+            ref_dir = dirname(ref_path) or '.'
+            include_refs = include_refs + (self.document_id(ref),)
 
 
         try:
@@ -343,20 +353,21 @@ class TermParser(object):
                 if t.term_is('include') or t.term_is('declare'):
 
                     if t.term_is('include'):
-                        resolved = self.find_include_doc(dirname(ref_path), t.value.strip())
+                        resolved = self.find_include_doc(ref_dir, t.value.strip())
                     else:
-                        resolved = self.find_declare_doc(dirname(ref_path), t.value.strip())
-
-                    if row_gen.ref == resolved:
-                        raise IncludeError("Include loop for '{}' ".format(resolved))
+                        resolved = self.find_declare_doc(ref_dir or '', t.value.strip())
 
                     yield t
 
                     try:
 
-                        sub_gen = get_generator(resolved.get_resource().get_target())
+                        target = resolved.get_resource().get_target()
+
+                        if self.document_id(target) in include_refs:
+                            raise IncludeError("Include loop for '{}' ".format(resolved))
 
-                        for t in self.generate_terms(sub_gen, root, file_type=t.record_term_lc):
+                        for t in self.generate_terms(target, root, file_type=t.record_term_lc,
+                                                     section=last_section, include_refs=include_refs):
                             yield t
 
                         if last_section:
@@ -366,7 +377,7 @@ class TermParser(object):
                         e.term = t
                         raise
 
-                    except (OSError,  FileNotFoundError, GenerateError, DownloadError) as e:
+                    except (OSError,  FileNotFoundError, GenerateError, RowGeneratorError) as e:
                         e = IncludeError("Failed to Include; {}".format(e))
                         e.term = t
                         raise e
-- 
2.43.0


From e06aa02cd2981c905bd8507a9a874512cb9de19f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:42:55 +0000
Subject: [PATCH 17/52] fix: loading Metatab documents from YAML

---
 metatab/rowgen.py | 28 ++++++++++------------------
 1 file changed, 10 insertions(+), 18 deletions(-)

diff --git a/metatab/rowgen.py b/metatab/rowgen.py
index 0a40a3c..1825672 100644
--- a/metatab/rowgen.py
+++ b/metatab/rowgen.py
@@ -24,20 +24,14 @@ class YamlMetatabSource(Source):
             t = doc.decl_terms.get(tn,{})
             vtn = t.get('termvaluename','').lower()
 
-            if isinstance(v, list):
-                for e in v:
-                    try:
-                        value = e[vtn]
-                        del e[vtn]
-                        yield (tn, value, parent)
-                    except KeyError:
-                        pass
-
-                    yield from self.yield_dict(doc, e, tn)
-            elif isinstance(v, dict):
-                yield from self.yield_dict(doc, v, tn)
-            else:
-                yield (tn,v, parent)
+            for e in (v if isinstance(v, list) else [v]):
+                if isinstance(e, dict):
+                    # The value of the term is in the property for the term value name, if it has one
+                    props = dict(e)
+                    yield (tn, props.pop(vtn, props.pop('@value', None)), parent)
+                    yield from self.yield_dict(doc, props, tn)
+                else:
+                    yield (tn, e, parent)
 
 
     def __iter__(self):
@@ -47,9 +41,9 @@ class YamlMetatabSource(Source):
         from metatab import MetatabDoc
 
         with open(self.url.fspath) as f:
-            d = yaml.load(f)
+            d = yaml.safe_load(f)
 
-        decl = d.get('declare', 'metatab-latest')
+        decl = d.pop('declare', 'metatab-latest')  # Loading the declaration creates the Declare terms
 
         doc = MetatabDoc(decl=decl)
 
@@ -70,8 +64,6 @@ class YamlMetatabSource(Source):
         last_term = { }
         for term_name, value, parent in self.yield_dict(doc, d):
 
-            print(term_name, value, parent)
-
             section = self.sections.get(self.section_map.get(term_name) or 'root')
 
             if parent is None:
-- 
2.43.0


From ba79bc344e579274145b7527fe663169494f213f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:22 +0000
Subject: [PATCH 18/52] fix: a property column named Section must not replace
 the section of a term

---
 metatab/terms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index efab5c6..59b1651 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -372,6 +372,10 @@ class Term(object):
             # Set the value name
             object.__setattr__(self, 'value', value)
 
+        elif item == 'section':
+            # Terms always have a section, even when there is also a property with the same name.
+            object.__setattr__(self, item, value)
+
         elif item.lower() in [ e.lower() for e in self.property_names]:
             # only allow attribut setting for pre-defined chidren
             self[item] = value
-- 
2.43.0


From d95343f60341947412e07ca4e742ea0b7d6e7db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:23 +0000
Subject: [PATCH 19/52] fix: find() with a list of terms must also find the
 derived terms

---
 metatab/doc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 6e74381..ae0f243 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -393,9 +393,9 @@ class MetatabDoc(object):
                 except AttributeError:  # Term is hopefully a list
                     terms = []
                     for t in term:
-                        terms.append(term)
-                        for dt in self.derived_terms[t.lower()]:
-                            terms.append(dt)
+                        terms.append(t)
+                        terms.extend(self.derived_terms.get(t.lower(), []))
+                    term = terms
             except KeyError as e:
                 pass
 
-- 
2.43.0


From f2e1d17466c9484320fc0bb02f383119514dd5d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:23 +0000
Subject: [PATCH 20/52] fix: as_dict() fails when a concatenated term has
 properties

---
 metatab/terms.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 59b1651..a92287b 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -567,6 +567,9 @@ class Term(object):
 
             for c in term.children:
 
+                # Only values can be concatenated. Terms with properties are converted to dicts
+                can_concat = c.is_terminal and isinstance(d.get(c.record_term_lc, ''), str)
+
                 if c.child_property_type == 'scalar':
                     d[c.record_term_lc] = cls._convert_to_dict(c, replace_value_names)
 
@@ -577,7 +580,7 @@ class Term(object):
                         # The c.term property doesn't exist, so add a list
                         d[c.record_term_lc] = [cls._convert_to_dict(c, replace_value_names)]
 
-                elif c.child_property_type == 'sconcat': # Concat with a space
+                elif c.child_property_type == 'sconcat' and can_concat: # Concat with a space
 
                     if c.record_term_lc in d:
                         s = d[c.record_term_lc] + ' '
@@ -586,7 +589,7 @@ class Term(object):
 
                     d[c.record_term_lc] =s + (cls._convert_to_dict(c, replace_value_names) or '')
 
-                elif c.child_property_type == 'bconcat':  # Concat with a blank
+                elif c.child_property_type == 'bconcat' and can_concat:  # Concat with a blank
 
                     d[c.record_term_lc] = d.get(c.record_term_lc, '') +  (cls._convert_to_dict(c,
                                                                                                replace_value_names)
-- 
2.43.0


From aed0d8d778b8565738c07fac380e29ecc0c14b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:23 +0000
Subject: [PATCH 21/52] fix: children created in a document must use their
 declarations, as parsed children do

---
 metatab/terms.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index a92287b..7cabd32 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -186,12 +186,19 @@ class Term(object):
         c = tc(term, str(value) if value is not None else None,
                parent=self, doc=self.doc, section=self.section).new_children(**kwargs)
 
-        c.term_value_name = self.doc.decl_terms.get(c.join, {}).get('termvaluename', c.term_value_name)
+        c.set_declaration()
 
         assert not c.term_is("*.Section")
         self.children.append(c)
         return c
 
+    def set_declaration(self):
+        """Set the properties that depend on how the term is declared in the document. """
+        decl = self.doc.decl_terms.get(self.join, {})
+
+        self.term_value_name = decl.get('termvaluename', self.term_value_name)
+        self.child_property_type = decl.get('childpropertytype', self.child_property_type)
+
     def remove_child(self, child):
         """Remove the term from this term's children. """
         assert isinstance(child, Term)
@@ -266,6 +273,7 @@ class Term(object):
         if c is None:
             tc = self.doc.get_term_class(term.lower())
             c = tc(term, value, parent=self, doc=self.doc, section=self.section).new_children(**kwargs)
+            c.set_declaration()
             assert not c.term_is("Datafile.Section"), (self, c)
             self.children.append(c)
 
-- 
2.43.0


From c14431c7635602014981a779cc23d8fd4b5af571 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:53 +0000
Subject: [PATCH 22/52] fix: use declarations loaded into the document before
 parsing, with the decl argument

---
 metatab/parser.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metatab/parser.py b/metatab/parser.py
index d1f5b1b..4bf29c2 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -81,6 +81,11 @@ class TermParser(object):
 
         self.install_declare_terms()
 
+        # Declarations that were loaded into the document before parsing
+        if self.doc:
+            self._declared_terms.update(self.doc.decl_terms)
+            self._declared_sections.update(self.doc.decl_sections)
+
     @property
     def path(self):
         """Return the path from the row generator, if it is avilable"""
-- 
2.43.0


From c5bd0312fd55e4d21e44921b9bc833b7ff07beab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:45:53 +0000
Subject: [PATCH 23/52] fix: use the registered term class for terms created
 with unqualified names

---
 metatab/terms.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 7cabd32..8baae11 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -181,7 +181,7 @@ class Term(object):
 
         """
 
-        tc = self.doc.get_term_class(term.lower())
+        tc = self.doc.get_term_class('.'.join((self.record_term_lc, self.split_term_lower(term)[1])))
 
         c = tc(term, str(value) if value is not None else None,
                parent=self, doc=self.doc, section=self.section).new_children(**kwargs)
@@ -788,7 +788,7 @@ class SectionTerm(Term):
     def new_term(self, term, value, **kwargs):
         """Create a new root-level term in this section"""
 
-        tc = self.doc.get_term_class(term.lower())
+        tc = self.doc.get_term_class(self.normalize_term(term))
 
         t = tc(term, value, doc=self.doc, parent=None, section=self).new_children(**kwargs)
 
-- 
2.43.0


From 45cff4d2cc8f33b74375d756dded92f13e1eff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:50:36 +0000
Subject: [PATCH 24/52] fix: numeric names of child rows must not be replaced
 with column names

---
 metatab/parser.py | 5 +++--
 metatab/terms.py  | 2 +-
 2 files changed, 4 insertions(+), 3 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 4bf29c2..b2c72ad 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -457,9 +457,10 @@ class TermParser(object):
                 if t.join_lc in self.synonyms:
                     t.parent_term, t.record_term = Term.split_term_lower(self.synonyms[t.join_lc]);
 
-                # Remap integer record terms to names from the parameter map
+                # Remap integer record terms to names from the parameter map, for terms from property columns
                 try:
-                    t.record_term = str(self._param_map[int(t.record_term)])
+                    if t.is_arg_child:
+                        t.record_term = str(self._param_map[int(t.record_term)])
                 except ValueError:
                     pass  # the record term wasn't an integer
 
diff --git a/metatab/terms.py b/metatab/terms.py
index 8baae11..a39adff 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -499,7 +499,7 @@ class Term(object):
     def is_arg_child(self):
         """Return true if this term was created as a child of another term, from the parent
         term's arguments"""
-        return self.col > 1
+        return self.col is not None and self.col > 1
 
     @property
     def has_elided_parent(self):
-- 
2.43.0


From 6667578afd6ef06011fcd90d990a350b53bf4ebd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 21:52:46 +0000
Subject: [PATCH 25/52] fix: a child with the same name as its parent became
 its own parent

---
 metatab/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index b2c72ad..e454de1 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -519,16 +519,16 @@ class TermParser(object):
                         last_term_map[last_parent_term].add_child(t)
 
                     else:
-                        last_parent_term = t.record_term
-                        last_term_map[ELIDED_TERM] = t
-                        last_term_map[t.record_term] = t
-
                         try:
                             last_term_map[t.parent_term].add_child(t)
                         except KeyError:
                             raise ParserError("No parent term for '{}' in term '{}', row = {}"
                                               .format(t.parent_term, t.term, t.row))
 
+                        last_parent_term = t.record_term
+                        last_term_map[ELIDED_TERM] = t
+                        last_term_map[t.record_term] = t
+
                     if t.parent_term_lc == 'root':
                         last_section.add_term(t)
 
-- 
2.43.0


From fd44f735bb2ef1e86f05910abd67997d689a6380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:11 +0000
Subject: [PATCH 26/52] fix: read the metadata file of a ZIP package, even if
 it is not the first file

---
 metatab/appurl.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metatab/appurl.py b/metatab/appurl.py
index 479926a..60a248e 100644
--- a/metatab/appurl.py
+++ b/metatab/appurl.py
@@ -118,7 +118,13 @@ class MetatabUrl(InnerFile, Url):
         return MetatabUrl(str(u), downloader=self._downloader)
 
     def get_target(self):
-        return MetatabUrl(str(self.inner.get_target()), downloader=self._downloader)
+        inner = self.inner
+
+        # The metadata may not be the first file in the package
+        if self.resource_format == 'zip' and not inner.target_file:
+            inner = inner.join_target(self.target_file)
+
+        return MetatabUrl(str(inner.get_target()), downloader=self._downloader)
 
     def join_target(self, tf):
 
-- 
2.43.0


From ef9f2fc2b5657ce91a536c64197d66f88d3984fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:02:11 +0000
Subject: [PATCH 27/52] fix: a property cell with no value must not become a
 property with the value 'None'

---
 metatab/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index e454de1..2323835 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -412,7 +412,7 @@ class TermParser(object):
                 # Yield any child terms, from the term row arguments
                 if not isinstance(t, SectionTerm) and not t.term_is('header'):
                     for col, value in enumerate(t.args, 0):
-                        if str(value).strip():
+                        if value is not None and str(value).strip():
 
                             term_name = t.record_term_lc + '.' + str(col)
 
-- 
2.43.0


From 741ed9ecf9605b8f84242e3d7ac51d778ca30b2c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:06:25 +0000
Subject: [PATCH 28/52] fix: children with an elided parent must use their
 declarations and synonyms

---
 metatab/parser.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 2323835..156890c 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -492,6 +492,14 @@ class TermParser(object):
 
                     # Case for normal, value-bearing terms
 
+                    # Elided parent terms refer to the last term that can be a parent. The name has to be complete
+                    # before looking for the declaration of the term
+                    has_elided_parent = t.has_elided_parent
+
+                    if has_elided_parent:
+                        t.parent_term = last_parent_term  # After this t.has_elided_parent will be False
+                        self.substitute_synonym(t)
+
                     t.child_property_type = self._declared_terms \
                         .get(t.join, {}) \
                         .get('childpropertytype', 'any')
@@ -509,10 +517,7 @@ class TermParser(object):
                     # Only terms with the term name in the first column can be parents of
                     # other terms. This rule excludes argument terms and terms with an elided parent
 
-                    if t.has_elided_parent:
-                        # Elided parent terms refer to the last term that can be a parent
-                        t.parent_term = last_parent_term # After this t.has_elided_parent will be False
-
+                    if has_elided_parent:
                         last_term_map[last_parent_term].add_child(t)
 
                     elif t.is_arg_child:
-- 
2.43.0


From dd6de931298e0995c424320f4ca3a72ace9f845f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:51 +0000
Subject: [PATCH 29/52] fix: find derived terms in documents that get their
 declarations from the decl argument

---
 metatab/doc.py    | 26 ++++++++++++++------------
 metatab/parser.py | 10 +++++-----
 2 files changed, 19 insertions(+), 17 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index ae0f243..6eeb688 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -179,12 +179,23 @@ class MetatabDoc(object):
 
         list(term_interp)
 
-        dd = term_interp.declare_dict
+        self._update_declarations(term_interp)
+
+        return self
+
+    def _update_declarations(self, terms):
+        """Add the declarations from a term parser to the document"""
+
+        dd = terms.declare_dict
 
         self.decl_terms.update(dd['terms'])
         self.decl_sections.update(dd['sections'])
 
-        return self
+        self.super_terms.update(terms.super_terms())
+
+        kf = lambda e: e[1]  # Sort on the value
+        self.derived_terms = {k: set(e[0] for e in g)
+                              for k, g in groupby(sorted(self.super_terms.items(), key=kf), kf)}
 
     def add_term(self, t, add_section=True):
         t.doc = self
@@ -501,16 +512,7 @@ class MetatabDoc(object):
                 assert t.parent is not None
 
         try:
-            dd = terms.declare_dict
-
-            self.decl_terms.update(dd['terms'])
-            self.decl_sections.update(dd['sections'])
-
-            self.super_terms.update(terms.super_terms())
-
-            kf = lambda e: e[1]  # Sort on the value
-            self.derived_terms = {k: set(e[0] for e in g)
-                                  for k, g in groupby(sorted(self.super_terms.items(), key=kf), kf)}
+            self._update_declarations(terms)
 
         except AttributeError as e:
             pass
diff --git a/metatab/parser.py b/metatab/parser.py
index 156890c..f249453 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -128,13 +128,13 @@ class TermParser(object):
         """Return a dictionary mapping term names to their super terms"""
 
         # If the doc already has super terms, we've already parsed something, so
-        # assume we parsed the declaration, and can use re-use the old decls.
-        if self.doc and self.doc.super_terms:
-            return self.doc.super_terms
+        # re-use the old decls.
+        super_terms = dict(self.doc.super_terms) if self.doc else {}
 
+        super_terms.update((k.lower(), v['inheritsfrom'].lower())
+                           for k, v in self._declared_terms.items() if 'inheritsfrom' in v)
 
-        return  {k.lower(): v['inheritsfrom'].lower()
-                         for k, v in self._declared_terms.items() if 'inheritsfrom' in v}
+        return super_terms
 
     @property
     def declare_dict(self):
-- 
2.43.0


From 82ac175e36aa1c78af0d4c45ce36f1d066a8309d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:17:35 +0000
Subject: [PATCH 30/52] fix: documents in directories with names that are
 quoted in URLs

---
 metatab/doc.py    | 4 ++--
 metatab/parser.py | 2 +-
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 6eeb688..f63d313 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -68,7 +68,7 @@ class MetatabDoc(object):
 
                 if self._ref.scheme == 'file':
                     try:
-                        self._mtime = getmtime(self._ref.path)
+                        self._mtime = getmtime(str(self._ref.fspath))
                     except (FileNotFoundError, OSError):
                         self._mtime = 0
                 else:
@@ -150,7 +150,7 @@ class MetatabDoc(object):
             return None
 
         u = parse_app_url(self.ref)
-        return abspath(dirname(u.path))
+        return abspath(dirname(str(u.fspath)))
 
     @classmethod
     def register_term_class(cls, term_name, class_or_name):
diff --git a/metatab/parser.py b/metatab/parser.py
index f249453..00fd03f 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -330,7 +330,7 @@ class TermParser(object):
         else:
             row_gen = get_generator(ref)
             ref_path = ref.path
-            ref_dir = dirname(ref_path) or '.'
+            ref_dir = dirname(str(ref.fspath)) or '.'
             include_refs = include_refs + (self.document_id(ref),)
 
 
-- 
2.43.0


From e0f1d96c1c2569a09e341175e6062e3d67766e00 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:22:13 +0000
Subject: [PATCH 31/52] fix: set_terms() with a value of two characters

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index a39adff..3fe95cd 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -847,7 +847,7 @@ class SectionTerm(Term):
 
         for k,v in kw_terms.items():
             try:
-                value, props = v
+                value, props = (v, {}) if isinstance(v, str) else v
             except (ValueError, TypeError) as e:
                 value, props = v,{}
 
-- 
2.43.0


From cc132bc2300a651cadef8df545af40aaad510bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:38:31 +0000
Subject: [PATCH 32/52] fix: resources of a datapackage use all of the
 properties of the Datafile term

The conversion used only the properties that are in the columns of the row of the term, so data files
with the same properties in rows of their own, as they are in Lines files, were dropped.
---
 metatab/datapackage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/datapackage.py b/metatab/datapackage.py
index a09d8a8..65e0c78 100644
--- a/metatab/datapackage.py
+++ b/metatab/datapackage.py
@@ -35,7 +35,7 @@ def convert_to_datapackage(doc):
     except KeyError as e:
         raise ConversionError("Failed to get schemas: " + str(e))
 
-    file_resources = [fr.arg_props for fr in doc['resources'] if fr.term_is('root.datafile')]
+    file_resources = [fr.all_props for fr in doc['resources'] if fr.term_is('root.datafile')]
 
     dp['resources'] = []
 
-- 
2.43.0


From 14b1fc4c91e53e4eb037067c7a0b083966903adb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:44:37 +0000
Subject: [PATCH 33/52] fix: file names of Metatab URLs, and targets in ZIP
 packages

The resource file of a relative URL with no directory included the scheme, files with names that end in
metadata.csv had the wrong target file, and the targets in a ZIP package were resolved to files in the
directory of the ZIP file.
---
 metatab/appurl.py | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/metatab/appurl.py b/metatab/appurl.py
index 60a248e..bd61a3d 100644
--- a/metatab/appurl.py
+++ b/metatab/appurl.py
@@ -60,13 +60,13 @@ class MetatabUrl(InnerFile, Url):
     @property
     def resource_file(self):
 
-        assert basename(self.resource_url)
+        assert basename(self.path)
 
-        return basename(self.resource_url)
+        return basename(self.path)
 
     @property
     def target_file(self):
-        if self.path.endswith(DEFAULT_METATAB_FILE):
+        if self.resource_file == DEFAULT_METATAB_FILE:
             return DEFAULT_METATAB_FILE
         elif self.resource_format in self.simple_file_formats:
             return self.resource_file
@@ -128,9 +128,7 @@ class MetatabUrl(InnerFile, Url):
 
     def join_target(self, tf):
 
-        print("Type=", type(self))
-
-        if self.target_file == DEFAULT_METATAB_FILE:
+        if self.resource_file == DEFAULT_METATAB_FILE:
             return self.inner.join_dir(tf)
         else:
             return self.inner.join_target(tf)
-- 
2.43.0


From 85c473800364cb148cce1786149440ac1b40bf70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:08 +0000
Subject: [PATCH 34/52] fix: MetatabUrl.doc for Lines files

The document was opened with the inner URL, and Lines files are only recognized with the metatab protocol.
---
 metatab/appurl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/appurl.py b/metatab/appurl.py
index bd61a3d..e2f3d90 100644
--- a/metatab/appurl.py
+++ b/metatab/appurl.py
@@ -93,7 +93,7 @@ class MetatabUrl(InnerFile, Url):
         """Return the metatab document for the URL"""
         from metatab import MetatabDoc
         t = self.get_resource().get_target()
-        return MetatabDoc(t.inner)
+        return MetatabDoc(t)
 
     @property
     def generator(self):
-- 
2.43.0


From 43852091116a25a9cd4a445571a0017c9ce9cd84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:55:44 +0000
Subject: [PATCH 35/52] fix: numbers as values of terms and properties

---
 metatab/doc.py   |  4 ++--
 metatab/terms.py | 13 ++++++-------
 2 files changed, 8 insertions(+), 9 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index f63d313..ef13021 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -563,7 +563,7 @@ class MetatabDoc(object):
             for table in schema_section.find('Root.Table'):
                 for column in table.find('Table.Column'):
                     for k, v in column.props.items():
-                        if v and v.strip():
+                        if v is not None and str(v).strip():
                             used_args.add(k)
 
             for arg in set(section_args) - used_args:
@@ -579,7 +579,7 @@ class MetatabDoc(object):
             for t in schema_section.find('Root.Table'):
                 for c in t.find('Table.Column'):
                     for child in list(c.children):
-                        if not child.value or not child.value.strip():
+                        if child.value is None or not str(child.value).strip():
                             c.remove_child(child)
 
     def ensure_identifier(self):
diff --git a/metatab/terms.py b/metatab/terms.py
index 3fe95cd..635abfe 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -67,7 +67,8 @@ class Term(object):
 
         self._orig_term = term
 
-        self.value = strip_if_str(value) if value else None
+        # Zero is a value, but get_or_new_child() uses False for no value.
+        self.value = strip_if_str(value) if value or (value == 0 and value is not False) else None
         self.args = [strip_if_str(x) for x in (term_args or [])]
 
         self._section = None
@@ -595,13 +596,11 @@ class Term(object):
                     else:
                         s = ''
 
-                    d[c.record_term_lc] =s + (cls._convert_to_dict(c, replace_value_names) or '')
+                    d[c.record_term_lc] =s + str('' if c.value is None else c.value)
 
                 elif c.child_property_type == 'bconcat' and can_concat:  # Concat with a blank
 
-                    d[c.record_term_lc] = d.get(c.record_term_lc, '') +  (cls._convert_to_dict(c,
-                                                                                               replace_value_names)
-                                                                          or '')
+                    d[c.record_term_lc] = d.get(c.record_term_lc, '') + str('' if c.value is None else c.value)
 
                 else:
                     try:
@@ -614,7 +613,7 @@ class Term(object):
 
                         d[c.record_term_lc] = [d[c.record_term]] + [cls._convert_to_dict(c, replace_value_names)]
 
-            if term.value:
+            if term.value or term.value == 0:
                 if replace_value_names:
                     d[term.term_value_name.lower()] = term.value
                 else:
@@ -985,7 +984,7 @@ class SectionTerm(Term):
             children = list(zip(self.property_names, value[1:]))
 
             for prop, value in children:
-                if value and value.strip():
+                if value is not None and str(value).strip():
                     child_t = '.' + (prop.title())
                     yield ("    "+child_t, escape(value))
 
-- 
2.43.0


From c38885c0b5ebbd411e98db6103dd95fbdf164213 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:23 +0000
Subject: [PATCH 36/52] fix: write the value of a term that also has a child
 with the name of the value

---
 metatab/terms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 635abfe..7df569f 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -638,8 +638,10 @@ class Term(object):
         properties = {tvm: self.value}
 
         # A property column holds only one value, so children that share a name have to be written as rows,
-        # in order, or all but one of them would be lost.
+        # in order, or all but one of them would be lost. The same is true for a child that has the name of the
+        # value of the term.
         name_counts = Counter(c.record_term_lc for c in self.children)
+        name_counts[tvm.lower()] += 1
 
         def is_property(c):
             return c.is_terminal and name_counts[c.record_term_lc] == 1
-- 
2.43.0


From f029131e581a5e722815ecbe9cd5567f9b9f99e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:23 +0000
Subject: [PATCH 37/52] fix: a declared value name such as Doc or Row must not
 replace the value of the term

---
 metatab/terms.py | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 7df569f..4742126 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -372,19 +372,15 @@ class Term(object):
             # Not initialized yet; set attributes normally.
             return object.__setattr__(self, item, value)
 
-        elif item in self.__dict__ and not (item.lower() == self.term_value_name.lower() or item.lower() == 'value'):
-            # Value already exists as an attribute in the object, and the name is not
-            # the value name
+        elif item == 'section' or (item in self.__dict__ and item.lower() != 'value'):
+            # Value already exists as an attribute in the object, and is not the value. Terms always have these
+            # attributes ( 'section', 'doc', 'row' ) even when the value or a property has the same name.
             object.__setattr__(self, item, value)
 
         elif item.lower() == self.term_value_name.lower() or item.lower() == 'value':
             # Set the value name
             object.__setattr__(self, 'value', value)
 
-        elif item == 'section':
-            # Terms always have a section, even when there is also a property with the same name.
-            object.__setattr__(self, item, value)
-
         elif item.lower() in [ e.lower() for e in self.property_names]:
             # only allow attribut setting for pre-defined chidren
             self[item] = value
-- 
2.43.0


From c6d5e1f74a764de0e66d62d945cd51ba75296dd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:23 +0000
Subject: [PATCH 38/52] fix: moving a term to a section, and adding a term that
 has no section

---
 metatab/terms.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index 4742126..f1d2312 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -766,6 +766,13 @@ class SectionTerm(Term):
         """Add a term to this section and set it's ownership. Should only be used on root level terms"""
         if t not in self.terms:
             if t.parent_term_lc == 'root':
+
+                # A term is in only one section
+                if t.section is not None and t.section is not self and t.section.doc is self.doc:
+                    t.section.remove_term(t, remove_from_doc=False)
+
+                t.section = self
+
                 self.terms.append(t)
 
                 self.doc.add_term(t, add_section=False)
-- 
2.43.0


From 3b643c83e8e9cd347d20c9979b9ba799cf6d7c37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:23 +0000
Subject: [PATCH 39/52] fix: refuse malformed rows and declarations with a
 ParserError

---
 metatab/parser.py | 42 +++++++++++++++++++++++++++++++++++++++---
 1 file changed, 39 insertions(+), 3 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 00fd03f..1db6269 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -308,6 +308,26 @@ class TermParser(object):
         """Return a value that is the same for all of the references to the same document"""
         return realpath(ref.path), ref.target_file, ref.target_segment
 
+    @staticmethod
+    def is_term_name(name):
+        """Return true for the names 'Record', 'Parent.Record' and '.Record' """
+        return bool(name) and name.count('.') < 2 and bool(name.split('.')[-1].strip())
+
+    def validate_row(self, name, row, line_n, ref_path):
+        """Raise a ParserError for a row that can't be a term"""
+
+        if not self.is_term_name(name):
+            raise ParserError("Bad term name '{}', row = {} in '{}' ".format(name, line_n, ref_path))
+
+        term_name = Term.normalize_term(name)
+
+        if term_name == 'root.root':
+            raise ParserError("The term name '{}' is reserved, row = {} in '{}' ".format(name, line_n, ref_path))
+
+        if term_name in ('root.section', 'root.include', 'root.declare') and (
+                len(row) < 2 or row[1] is None or not str(row[1]).strip()):
+            raise ParserError("The term '{}' must have a value, row = {} in '{}' ".format(name, line_n, ref_path))
+
     def generate_terms(self, ref, root, file_type=None, section=None, include_refs=()):
         """An generator that yields term objects, handling includes and argument
         children.
@@ -337,10 +357,14 @@ class TermParser(object):
         try:
             for line_n, row in enumerate(row_gen, 1):
 
-                if not row or not row[0] or not row[0].strip() or row[0].strip().startswith('#'):
+                name = row[0].strip() if row and row[0] else ''
+
+                if not name or name.startswith('#'):
                     continue
 
-                tt = Term(row[0], None) # Just to get the qualified name constructed property
+                self.validate_row(name, row, line_n, ref_path)
+
+                tt = Term(name, None) # Just to get the qualified name constructed property
 
                 term_class = self.get_term_class(tt.join_lc)
 
@@ -498,6 +522,10 @@ class TermParser(object):
 
                     if has_elided_parent:
                         t.parent_term = last_parent_term  # After this t.has_elided_parent will be False
+
+                        if t.term_is(['root.section', 'root.root']):
+                            raise ParserError("The term '{}' has no parent, row = {}".format(t.term, t.row))
+
                         self.substitute_synonym(t)
 
                     t.child_property_type = self._declared_terms \
@@ -564,6 +592,9 @@ class TermParser(object):
 
     def add_declared_section(self, t):
 
+        if not t.value:
+            raise DeclarationError("DeclareSection must have a value, in '{}'".format(t.file_name))
+
         self._declared_sections[t.value.lower()] = {
             'args': [e.strip() for e in t.args if e.strip()],  # FIXME Very suspicious
             'terms': []
@@ -607,9 +638,14 @@ class TermParser(object):
     def add_declared_term(self, t):
         from .exc import DeclarationError
 
+        td = {k: v for k, v in t.arg_props.items() if v and v.strip()}
+
+        for name in (t.value, td.get('synonym', 'none'), td.get('inheritsfrom', 'none')):
+            if not self.is_term_name(name):
+                raise DeclarationError("Bad term name '{}' in DeclareTerm, in '{}'".format(name, t.file_name))
+
         term_name = Term.normalize_term(t.value)
 
-        td = {k: v for k, v in t.arg_props.items() if v.strip()}
         td['values'] = {}
         td['term'] = t.value
 
-- 
2.43.0


From 721388d193a90974c137fcd9089af0ad2cd1d54a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 23:44:23 +0000
Subject: [PATCH 40/52] fix: numbers as names of terms, sections and columns

---
 metatab/parser.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 1db6269..cc77bd0 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -357,7 +357,8 @@ class TermParser(object):
         try:
             for line_n, row in enumerate(row_gen, 1):
 
-                name = row[0].strip() if row and row[0] else ''
+                # Names may be numbers, in rows that don't come from text
+                name = str(row[0]).strip() if row and row[0] is not None else ''
 
                 if not name or name.startswith('#'):
                     continue
@@ -366,6 +367,9 @@ class TermParser(object):
 
                 tt = Term(name, None) # Just to get the qualified name constructed property
 
+                if tt.term_is(['root.section', 'root.header']):
+                    row = [str(e) if e is not None else '' for e in row]
+
                 term_class = self.get_term_class(tt.join_lc)
 
                 t = term_class(tt.join_lc,
@@ -382,9 +386,9 @@ class TermParser(object):
                 if t.term_is('include') or t.term_is('declare'):
 
                     if t.term_is('include'):
-                        resolved = self.find_include_doc(ref_dir, t.value.strip())
+                        resolved = self.find_include_doc(ref_dir, str(t.value).strip())
                     else:
-                        resolved = self.find_declare_doc(ref_dir or '', t.value.strip())
+                        resolved = self.find_declare_doc(ref_dir or '', str(t.value).strip())
 
                     yield t
 
-- 
2.43.0


From a018d990b71a60d4f372e798d1595fc047b58bad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:41:42 +0000
Subject: [PATCH 41/52] fix: update_name uses Name, Identifier and Dataset of
 the Root section only

---
 metatab/doc.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index ef13021..c120b66 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -663,7 +663,7 @@ class MetatabDoc(object):
 
         self.ensure_identifier()
 
-        name_term = self.find_first('Root.Name')
+        name_term = self.find_first('Root.Name', section='Root')
 
         if not name_term:
             if create_term:
@@ -674,9 +674,9 @@ class MetatabDoc(object):
 
         orig_name = name_term.value
 
-        identifier = self.get_value('Root.Identifier')
+        identifier = self.get_value('Root.Identifier', section='Root')
 
-        datasetname = self.get_value('Root.Dataset')
+        datasetname = self.get_value('Root.Dataset', section='Root')
 
         if datasetname:
 
-- 
2.43.0


From 9d7fb1f046ddbcc6cf8ad2667dd4f37d7cc425ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:44:18 +0000
Subject: [PATCH 42/52] fix: new_section removes the terms of the section that
 it replaces

---
 metatab/doc.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index c120b66..7a65900 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -280,7 +280,10 @@ class MetatabDoc(object):
         return self.decl_sections.get(section_name.lower(), {}).get('args', [])
 
     def new_section(self, name, params=None):
-        """Return a new section"""
+        """Return a new section. If there is already a section with the name, it is replaced and its terms are removed"""
+        if name.lower() in self.sections:
+            self.sections[name.lower()].clean()
+
         self.sections[name.lower()] = SectionTerm(None, name, term_args=params, doc=self)
 
         # Set the default arguments
-- 
2.43.0


From 0fc0ee7da1024e428a080a5849b38bf7570b557d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 00:48:05 +0000
Subject: [PATCH 43/52] fix: a document that a declaration document includes is
 part of the declaration

---
 metatab/parser.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index cc77bd0..c0e202b 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -399,7 +399,10 @@ class TermParser(object):
                         if self.document_id(target) in include_refs:
                             raise IncludeError("Include loop for '{}' ".format(resolved))
 
-                        for t in self.generate_terms(target, root, file_type=t.record_term_lc,
+                        # What a declaration document includes is also part of the declaration
+                        inc_type = 'declare' if file_type == 'declare' else t.record_term_lc
+
+                        for t in self.generate_terms(target, root, file_type=inc_type,
                                                      section=last_section, include_refs=include_refs):
                             yield t
 
-- 
2.43.0


From 6b0328f47f5dc99cebfb47cc74ee52bbc85f6ff3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:51:51 +0000
Subject: [PATCH 44/52] fix: the declarations of a Declare row apply to the
 rest of the document, as those of the decl argument do

---
 metatab/parser.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metatab/parser.py b/metatab/parser.py
index c0e202b..55ccb86 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -406,6 +406,10 @@ class TermParser(object):
                                                      section=last_section, include_refs=include_refs):
                             yield t
 
+                        # The rest of the document uses the declarations
+                        if inc_type == 'declare' and self.doc is not None:
+                            self.doc._update_declarations(self)
+
                         if last_section:
                             yield last_section  # Re-assert the last section
 
-- 
2.43.0


From ee34003581359faf57a9653df5f5fb3cdf572a62 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:37 +0000
Subject: [PATCH 45/52] fix: all_props has no value for a property that was
 removed

---
 metatab/terms.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index f1d2312..fd8d9fa 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -543,7 +543,13 @@ class Term(object):
         argumemts. It combines props and arg_props"""
 
         d = self.arg_props
-        d.update(self.props)
+        props = self.props
+
+        # The property for a cell of the row may have been removed
+        for k in set(d) - set(props) - {self.term_value_name.lower()}:
+            d[k] = ''
+
+        d.update(props)
 
         return d
 
-- 
2.43.0


From 47db898b63b2fbdcbc18261ab5f8bc8b16d8e38a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 01:52:37 +0000
Subject: [PATCH 46/52] fix: a Section row with only blank columns has the
 declared columns

---
 metatab/terms.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index fd8d9fa..16cde7a 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -707,7 +707,10 @@ class SectionTerm(Term):
         self.doc = doc
 
         self.default_term_value_name = '@value'
-        section_args = term_args if term_args else self.doc.section_args(value) if self.doc else []
+
+        # Rows from spreadsheets may have blank cells after the last column
+        has_args = any(e is not None and str(e).strip() for e in (term_args or []))
+        section_args = term_args if has_args else self.doc.section_args(value) if self.doc else []
 
         self.terms = []  # Separate from children. Sections have contained terms, but no children.
 
-- 
2.43.0


From e8224421d09f0db1b3ae2eb43a885eff613e5464 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:33 +0000
Subject: [PATCH 47/52] fix: terms made with the API have their declared value
 name, also in a section with a Header row

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 7a65900..1853fe8 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -220,7 +220,7 @@ class MetatabDoc(object):
                 .get(t.join, {}) \
                 .get('childpropertytype', 'any')
 
-        if not t.term_value_name or t.term_value_name == t.section.default_term_value_name:
+        if not t.term_value_name or t.term_value_name in ('@value', t.section.default_term_value_name):
             t.term_value_name = self.decl_terms \
                 .get(t.join, {}) \
                 .get('termvaluename', t.section.default_term_value_name)
-- 
2.43.0


From b2089a6717320eb5f5a4b07301907d2ba6d53bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:02:33 +0000
Subject: [PATCH 48/52] fix: new_section() keeps the columns it is given, for
 sections that are declared

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 1853fe8..63c4d04 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -289,7 +289,7 @@ class MetatabDoc(object):
         # Set the default arguments
         s = self.sections[name.lower()]
 
-        if name.lower() in self.decl_sections:
+        if not s.args and name.lower() in self.decl_sections:
             s.args = self.decl_sections[name.lower()]['args']
 
         return s
-- 
2.43.0


From 0b83b60d2f1b80938f1cbeab8b3f1fb315651d0f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:32 +0000
Subject: [PATCH 49/52] fix: children made with the API have the value name of
 the Header row of their section, as those from rows

---
 metatab/terms.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 16cde7a..a08c88f 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -197,7 +197,9 @@ class Term(object):
         """Set the properties that depend on how the term is declared in the document. """
         decl = self.doc.decl_terms.get(self.join, {})
 
-        self.term_value_name = decl.get('termvaluename', self.term_value_name)
+        default_name = self.section.default_term_value_name if self.section else self.term_value_name
+
+        self.term_value_name = decl.get('termvaluename', default_name)
         self.child_property_type = decl.get('childpropertytype', self.child_property_type)
 
     def remove_child(self, child):
-- 
2.43.0


From 9f9f83ca837b090e9301c616d77b8b676b0a43af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:22 +0000
Subject: [PATCH 50/52] fix: arg_props names the cells of a row by the columns
 of that row, also after the columns of the section change

---
 metatab/parser.py | 2 ++
 metatab/terms.py  | 5 ++++-
 2 files changed, 6 insertions(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 55ccb86..edf28ad 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -527,6 +527,8 @@ class TermParser(object):
 
                     # Case for normal, value-bearing terms
 
+                    t._arg_names = self._param_map
+
                     # Elided parent terms refer to the last term that can be a parent. The name has to be complete
                     # before looking for the declaration of the term
                     has_elided_parent = t.has_elided_parent
diff --git a/metatab/terms.py b/metatab/terms.py
index a08c88f..fed04f9 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -70,6 +70,7 @@ class Term(object):
         # Zero is a value, but get_or_new_child() uses False for no value.
         self.value = strip_if_str(value) if value or (value == 0 and value is not False) else None
         self.args = [strip_if_str(x) for x in (term_args or [])]
+        self._arg_names = None  # Names of the args, when parsed from a row. The section's columns may change later.
 
         self._section = None
         self.section = section
@@ -532,7 +533,9 @@ class Term(object):
          term's section. Use props to get values of all children and
         arg props combined"""
 
-        d = dict(zip([str(e).lower() for e in self.section.property_names], self.args))
+        arg_names = self.section.property_names if self._arg_names is None else self._arg_names
+
+        d = dict(zip([str(e).lower() for e in arg_names], self.args))
 
         # print({ c.record_term_lc:c.value for c in self.children})
         d[self.term_value_name.lower()] = self.value
-- 
2.43.0


From dab8f374c328362767b1c553097b2603cfd46288 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:59:39 +0000
Subject: [PATCH 51/52] fix: base terms named without their parent, in queries
 and in InheritsFrom, mean the same as with it

---
 metatab/doc.py    | 7 +++++--
 metatab/parser.py | 4 ++--
 2 files changed, 7 insertions(+), 4 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 63c4d04..469fd35 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -397,18 +397,21 @@ class MetatabDoc(object):
             else:
                 return section.lower() == term.section.name.lower()
 
+        def qualified(term):
+            return term.lower() if '.' in term else 'root.' + term.lower()
+
         # Try to replace the term with the list of its derived terms; that is, replace the super-class with all
         # of the derived classes, but only do this expansion once.
         if _expand_derived:
             try:
                 try:
                     # Term is a string
-                    term = list(self.derived_terms[term.lower()]) + [term]
+                    term = list(self.derived_terms[qualified(term)]) + [term]
                 except AttributeError:  # Term is hopefully a list
                     terms = []
                     for t in term:
                         terms.append(t)
-                        terms.extend(self.derived_terms.get(t.lower(), []))
+                        terms.extend(self.derived_terms.get(qualified(t), []))
                     term = terms
             except KeyError as e:
                 pass
diff --git a/metatab/parser.py b/metatab/parser.py
index edf28ad..cc5d67d 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -131,8 +131,8 @@ class TermParser(object):
         # re-use the old decls.
         super_terms = dict(self.doc.super_terms) if self.doc else {}
 
-        super_terms.update((k.lower(), v['inheritsfrom'].lower())
-                           for k, v in self._declared_terms.items() if 'inheritsfrom' in v)
+        super_terms.update((k.lower(), Term.normalize_term(v['inheritsfrom']))
+                           for k, v in self._declared_terms.items() if v.get('inheritsfrom'))
 
         return super_terms
 
-- 
2.43.0


From d176d99dd602c7ca6263871921fbf1f16eb3ef15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:17:31 +0000
Subject: [PATCH 52/52] fix: the terms and sections of declarations are not
 part of the document, and are not found in it

---
 metatab/doc.py    |  4 ++--
 metatab/parser.py | 20 +++++++++++++++++++-
 2 files changed, 21 insertions(+), 3 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 469fd35..eaa5ed7 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -437,8 +437,8 @@ class MetatabDoc(object):
 
             for t in term_gen:
 
-                if t.join_lc == 'root.root':
-                    continue
+                if t.join_lc == 'root.root' or t.file_type == 'declare':
+                    continue  # Terms of declarations aren't part of the document
 
                 assert t.section or t.join_lc == 'root.root' or t.join_lc == 'root.section', t
 
diff --git a/metatab/parser.py b/metatab/parser.py
index cc5d67d..6ef92fe 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -401,9 +401,15 @@ class TermParser(object):
 
                         # What a declaration document includes is also part of the declaration
                         inc_type = 'declare' if file_type == 'declare' else t.record_term_lc
+                        inc_section = last_section
+
+                        if t.term_is('declare'):
+                            # The declaration has sections of its own
+                            inc_section = RootSectionTerm(file_name=ref_path, file_type='declare', doc=self.doc)
+                            yield inc_section
 
                         for t in self.generate_terms(target, root, file_type=inc_type,
-                                                     section=last_section, include_refs=include_refs):
+                                                     section=inc_section, include_refs=include_refs):
                             yield t
 
                         # The rest of the document uses the declarations
@@ -424,6 +430,9 @@ class TermParser(object):
 
                     continue  # Already yielded the include/declare term, and includes can't have children
 
+                elif t.term_is('section') and file_type == 'declare':
+                    last_section = t  # Sections of declarations aren't part of the document
+
                 elif t.term_is('section'):
 
                     # If there is already a section in the document, emit the existing section,
@@ -477,6 +486,13 @@ class TermParser(object):
         last_term_map[ELIDED_TERM] = self.root
         last_term_map[self.root.record_term] = self.root
 
+        # The terms of declarations have their own tree, because they aren't part of the document
+        declare_root = RootSectionTerm(file_type='declare', doc=self.doc)
+        term_maps = {
+            True: {ELIDED_TERM: declare_root, declare_root.record_term: declare_root},
+            False: last_term_map
+        }
+
         yield self.root
 
         try:
@@ -529,6 +545,8 @@ class TermParser(object):
 
                     t._arg_names = self._param_map
 
+                    last_term_map = term_maps[t.file_type == 'declare']
+
                     # Elided parent terms refer to the last term that can be a parent. The name has to be complete
                     # before looking for the declaration of the term
                     has_elided_parent = t.has_elided_parent
-- 
2.43.0

