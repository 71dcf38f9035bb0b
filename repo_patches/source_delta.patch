From e0e917f9781cf85ff59c1dc54f3dd4fe2ea48b0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:55 +0000
Subject: [PATCH 01/33] fix: get_or_new_section finds an existing section
 whatever the case of the name

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 1db299e..01384b9 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -271,7 +271,7 @@ class MetatabDoc(object):
 
     def get_or_new_section(self, name, params=None):
         """Create a new section or return an existing one of the same name"""
-        if name not in self.sections:
+        if name.lower() not in self.sections:
             self.sections[name.lower()] = SectionTerm(None, name, term_args=params, doc=self)
 
         return self.sections[name.lower()]
-- 
2.43.0


From 4e27e10abc60594cb9f8a5ce9083bb52bd7fd8e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:55 +0000
Subject: [PATCH 02/33] fix: deleting a section by name removes its terms
 whatever the case of the name

---
 metatab/doc.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 01384b9..2e5280d 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -317,8 +317,8 @@ class MetatabDoc(object):
     def __delitem__(self, item):
 
         try:
-            if item in self.sections:
-                for t in self.sections[item]:
+            if item.lower() in self.sections:
+                for t in self.sections[item.lower()]:
                     self.terms.remove(t)
 
             del self.sections[item.lower()]
-- 
2.43.0


From 8cc4c7b3bf96ffff3f38a391c77e95b80788dd4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:55 +0000
Subject: [PATCH 03/33] fix: deleting a term from a section by name removes the
 matching terms

---
 metatab/terms.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 057042f..4437128 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -885,9 +885,9 @@ class SectionTerm(Term):
 
     def __delitem__(self, item):
         """Delete all terms that match the given name"""
-        for t in self.terms:
-            if t.term.lower() == item.lower():
-                self.delete_term(item)
+        for t in list(self.terms):
+            if t.term_is(item):
+                self.remove_term(t)
 
         return
 
-- 
2.43.0


From 0900ddcdd851481c64f32ac0cfe880bf66a80354 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:10:55 +0000
Subject: [PATCH 04/33] fix: only strip the root prefix, not every "root.",
 from a term name when writing rows

---
 metatab/doc.py   | 2 +-
 metatab/terms.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 2e5280d..ef6803d 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -803,7 +803,7 @@ class MetatabDoc(object):
             for row in s.rows:
                 term, value = row
 
-                term = term.replace('root.', '').title()
+                term = (term[len('root.'):] if term.startswith('root.') else term).title()
 
                 try:
                     yield [term] + value
diff --git a/metatab/terms.py b/metatab/terms.py
index 4437128..66e4c97 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -951,7 +951,7 @@ class SectionTerm(Term):
             if not isinstance(value, (list, tuple)):
                 value = [value]
 
-            term = term.replace('root.', '').title()
+            term = (term[len('root.'):] if term.startswith('root.') else term).title()
             yield (term, value[0])
 
             children = list(zip(self.property_names, value[1:]))
-- 
2.43.0


From 539c73430e2016e99a276629a2536b745cafb456 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:23 +0000
Subject: [PATCH 05/33] fix: as_version computes a name without changing the
 version of the document

---
 metatab/doc.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index ef6803d..7e7a4a1 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -128,7 +128,17 @@ class MetatabDoc(object):
 
         """
 
-        return self._generate_identity_name(ver)
+        self.update_version()
+
+        version = self['Root'].find_first('Root.Version')
+        terms = [t for t in (version, version and version.find_first('Version.Patch')) if t]
+        values = [t.value for t in terms]
+
+        try:
+            return self._generate_identity_name(ver)
+        finally:
+            for t, v in zip(terms, values):
+                t.value = v
 
     @property
     def doc_dir(self):
-- 
2.43.0


From 0fc97f7c529d662b3c3c5eb78a61091119addd90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:23 +0000
Subject: [PATCH 06/33] fix: version math on a document with no version raises
 MetatabError

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 7e7a4a1..871b6db 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -749,7 +749,7 @@ class MetatabDoc(object):
 
             try:
                 int(mv)
-            except ValueError:
+            except (ValueError, TypeError):
                 raise MetatabError(
                     "When specifying version math, version value in Root.Version or Version.Patch  term must be an integer")
 
-- 
2.43.0


From af2abdf74cc3e155319f9b3abb6ecc98c006e0ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:23 +0000
Subject: [PATCH 07/33] fix: load_rows passes the row generator to the parser
 as the reference

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 871b6db..75234a1 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -523,7 +523,7 @@ class MetatabDoc(object):
 
     def load_rows(self, row_generator):
 
-        term_interp = TermParser(self, row_generator)
+        term_interp = TermParser(row_generator, resolver=self.resolver, doc=self)
 
         return self.load_terms(term_interp)
 
-- 
2.43.0


From 3f7f57c591bc169d6b93d417159b11f411080cad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:23 +0000
Subject: [PATCH 08/33] fix: the datapackage name falls back to the identifier

---
 metatab/datapackage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/datapackage.py b/metatab/datapackage.py
index 356ead5..07854e7 100644
--- a/metatab/datapackage.py
+++ b/metatab/datapackage.py
@@ -25,8 +25,8 @@ def convert_to_datapackage(doc):
         pass
 
     if not 'name' in dp:
-        if 'indentifier' in dp:
-            dp['name'] = dp['indentifier']
+        if 'identifier' in dp:
+            dp['name'] = dp['identifier']
         else:
             raise ConversionError("Datapackage.json requires a Name or Identity term")
 
-- 
2.43.0


From 359007450cb6fbde36551b3dd54e13b27fadc99d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:23 +0000
Subject: [PATCH 09/33] fix: flatten uses the abstract base classes from
 collections.abc

---
 metatab/util.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/metatab/util.py b/metatab/util.py
index 368ef30..67c410b 100644
--- a/metatab/util.py
+++ b/metatab/util.py
@@ -55,13 +55,13 @@ def flatten(d, sep='.'):
     """Flatten a data structure into tuples"""
 
     def _flatten(e, parent_key='', sep='.'):
-        import collections
+        import collections.abc
 
         prefix = parent_key + sep if parent_key else ''
 
-        if isinstance(e, collections.MutableMapping):
+        if isinstance(e, collections.abc.MutableMapping):
             return tuple((prefix + k2, v2) for k, v in e.items() for k2, v2 in _flatten(v, k, sep))
-        elif isinstance(e, collections.MutableSequence):
+        elif isinstance(e, collections.abc.MutableSequence):
             return tuple((prefix + k2, v2) for i, v in enumerate(e) for k2, v2 in _flatten(v, str(i), sep))
         else:
             return (parent_key, (e,)),
-- 
2.43.0


From c34d4a0d0ab95d44240dd269c18b56e3d30e0707 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:23 +0000
Subject: [PATCH 10/33] fix: finding a list of terms also finds the terms
 derived from them

---
 metatab/doc.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 75234a1..6c6ae89 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -392,9 +392,10 @@ class MetatabDoc(object):
                 except AttributeError:  # Term is hopefully a list
                     terms = []
                     for t in term:
-                        terms.append(term)
-                        for dt in self.derived_terms[t.lower()]:
+                        terms.append(t)
+                        for dt in self.derived_terms.get(t.lower(), ()):
                             terms.append(dt)
+                    term = terms
             except KeyError as e:
                 pass
 
-- 
2.43.0


From 99976be3bcde29e59e16c1fb654110f4d71e7965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:23 +0000
Subject: [PATCH 11/33] fix: written files have the identifier and name that
 writing the document sets

---
 metatab/doc.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metatab/doc.py b/metatab/doc.py
index 6c6ae89..f325e0d 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -916,6 +916,8 @@ class MetatabDoc(object):
         if path.suffix != '.csv':
             raise MetatabError("Writing CSV file, but extension is wrong: {} ".format(str(path)))
 
+        self.cleanse()
+
         return self._write(self.as_csv(), path)
 
     def write_lines(self, path=None):
@@ -925,6 +927,8 @@ class MetatabDoc(object):
         if path.suffix != '.txt':
             raise MetatabError("Writing line (txt) file, but extension is wrong: {} ".format(str(path)))
 
+        self.cleanse()
+
         return self._write(self.as_lines(), path)
 
     def write(self, path=None):
-- 
2.43.0


From 9d37e6e33f2c98b6cc53f66ff00c2c449f7c94f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:23 +0000
Subject: [PATCH 12/33] fix: errors without a term can be converted to a dict

---
 metatab/parser.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index efb820d..778e966 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -222,11 +222,13 @@ class TermParser(object):
 
         for e in self.errors:
 
+            term = getattr(e, 'term', None)
+
             errors.append({
-                'file': e.term.file_name,
-                'row': e.term.row if e.term else '<unknown>',
-                'col': e.term.col if e.term else '<unknown>',
-                'term': e.term.join if e.term else '<unknown>',
+                'file': term.file_name if term else '<unknown>',
+                'row': term.row if term else '<unknown>',
+                'col': term.col if term else '<unknown>',
+                'term': term.join if term else '<unknown>',
                 'error': str(e)
             })
 
-- 
2.43.0


From b6b9be622d969e8733ed77274687a6058568d97e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:23 +0000
Subject: [PATCH 13/33] fix: get_or_new_term without a value keeps the value of
 an existing term

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 66e4c97..8db73cc 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -793,7 +793,7 @@ class SectionTerm(Term):
             t = self.new_term(term, value, **kwargs)
 
         else:
-            if value is not None:
+            if value is not None and value is not False:
                 t.value = value
 
             for k, v in kwargs.items():
-- 
2.43.0


From 24c2ca541e367206dd40a1763e3b9f0b180d4c59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:11:23 +0000
Subject: [PATCH 14/33] fix: a Header row with no value keeps the default term
 value name

---
 metatab/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 778e966..b9623a9 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -452,7 +452,7 @@ class TermParser(object):
 
                 if t.term_is('root.header'):
                     self._param_map = munge_param_map(t)
-                    default_term_value_name = t.value.lower()
+                    default_term_value_name = t.value.lower() if t.value else '@value'
                     last_section.header_args = t.args
                     last_section.default_term_value_name = default_term_value_name
                     continue
-- 
2.43.0


From 6b44fd1f54215f9eda42186023eed01469146eee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:18 +0000
Subject: [PATCH 15/33] fix: an include inside an included file is resolved
 relative to that file, and include loops are reported

---
 metatab/parser.py | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index b9623a9..d9eac86 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -19,7 +19,7 @@ METATAB_ASSETS_URL = 'http://assets.metatab.org/'
 from .terms import Term, SectionTerm, RootSectionTerm
 
 from .exc import IncludeError, DeclarationError, ParserError, GenerateError
-from os.path import dirname, join, exists
+from os.path import dirname, join, exists, normpath
 from .util import declaration_path, import_name_or_class
 
 from functools import lru_cache
@@ -300,7 +300,7 @@ class TermParser(object):
 
         return parse_app_url(path)
 
-    def generate_terms(self, ref, root, file_type=None):
+    def generate_terms(self, ref, root, file_type=None, included_from=()):
         """An generator that yields term objects, handling includes and argument
         children.
         :param file_type:
@@ -315,11 +315,12 @@ class TermParser(object):
 
         if isinstance(ref, Source):
             row_gen = ref
-            ref_path = row_gen.__class__.__name__
+            ref_path = row_gen.ref.path if isinstance(row_gen.ref, Url) else row_gen.__class__.__name__
         else:
             row_gen = get_generator(ref)
             ref_path = ref.path
 
+        included_from = included_from + (normpath(ref_path),)
 
         try:
             for line_n, row in enumerate(row_gen, 1):
@@ -349,7 +350,7 @@ class TermParser(object):
                     else:
                         resolved = self.find_declare_doc(dirname(ref_path), t.value.strip())
 
-                    if row_gen.ref == resolved:
+                    if normpath(resolved.path) in included_from:
                         raise IncludeError("Include loop for '{}' ".format(resolved))
 
                     yield t
@@ -358,7 +359,8 @@ class TermParser(object):
 
                         sub_gen = get_generator(resolved.get_resource().get_target())
 
-                        for t in self.generate_terms(sub_gen, root, file_type=t.record_term_lc):
+                        for t in self.generate_terms(sub_gen, root, file_type=t.record_term_lc,
+                                                     included_from=included_from):
                             yield t
 
                         if last_section:
-- 
2.43.0


From 23d3b5f8427c0afb3950526ee8622b306b7ee413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:39 +0000
Subject: [PATCH 16/33] fix: a missing include or declaration file is reported
 as an IncludeError

---
 metatab/parser.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index d9eac86..c50b6ba 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -8,7 +8,7 @@ objects.
 """
 
 from rowgenerators import Source, get_generator, Url, parse_app_url
-from rowgenerators.exceptions import DownloadError
+from rowgenerators.exceptions import RowGeneratorError
 
 ROOT_TERM = 'root'  # No parent term -- no '.' --  in term cell
 
@@ -370,7 +370,7 @@ class TermParser(object):
                         e.term = t
                         raise
 
-                    except (OSError,  FileNotFoundError, GenerateError, DownloadError) as e:
+                    except (OSError,  FileNotFoundError, GenerateError, RowGeneratorError) as e:
                         e = IncludeError("Failed to Include; {}".format(e))
                         e.term = t
                         raise e
-- 
2.43.0


From d5dd5175c403820fd0fe3aca100e009b15923eea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:39 +0000
Subject: [PATCH 17/33] fix: writing a term keeps repeated properties

---
 metatab/terms.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 8db73cc..23316a6 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -620,13 +620,18 @@ class Term(object):
         # if the section has any.
 
         properties = {tvm: self.value}
+        names = {tvm.lower()}
+        repeated = []  # Terminal children that need their own rows, because the property already has a value
 
         for c in self.children:
             if c.is_terminal:
-                if c.record_term_lc:
+                if c.record_term_lc in names:
+                    repeated.append(c)
+                elif c.record_term_lc:
                     # This is rare, but can happen if a property child is not given
                     # a property name by the section -- the "Section" term has a blank column.
                     properties[c.record_term_lc] = c.value
+                    names.add(c.record_term_lc)
 
         yield (self.qualified_term, properties)
 
@@ -635,6 +640,8 @@ class Term(object):
             if not c.is_terminal:
                 for row in c.rows:
                     yield row
+            elif c in repeated:
+                yield (c.qualified_term, c.value)
 
     @property
     def descendents(self):
-- 
2.43.0


From 5d4e33a70da5ff97ce77d1fdbc04f56f8a60c010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:12:39 +0000
Subject: [PATCH 18/33] fix: pipe characters in values are escaped in the line
 format

---
 metatab/terms.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 23316a6..99552a3 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -947,9 +947,12 @@ class SectionTerm(Term):
     def lines(self):
         """Iterate over all of the rows as text lines"""
 
+        def escape(v):
+            return v.replace('|', r'\|') if isinstance(v, str) else v
+
         # Yield the section header
         if self.name != 'Root':
-            yield ('Section', '|'.join([self.value] + self.property_names))
+            yield ('Section', '|'.join(escape(e) for e in [self.value] + self.property_names))
 
         # Yield all of the rows for terms in the section
         for row in self.rows:
@@ -959,14 +962,14 @@ class SectionTerm(Term):
                 value = [value]
 
             term = (term[len('root.'):] if term.startswith('root.') else term).title()
-            yield (term, value[0])
+            yield (term, escape(value[0]))
 
             children = list(zip(self.property_names, value[1:]))
 
             for prop, value in children:
                 if value and value.strip():
                     child_t = '.' + (prop.title())
-                    yield ("    "+child_t, value)
+                    yield ("    "+child_t, escape(value))
 
     def as_lines(self):
         return '\n'.join( '{}: {}'.format(t,v if v is not None else '') for t, v  in self.lines )
-- 
2.43.0


From 5a9441d21621a699d1fd314eef7803fa4fa61825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:13:04 +0000
Subject: [PATCH 19/33] fix: adding or moving a term to a section makes it the
 section of the term

---
 metatab/terms.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index 99552a3..4ee9d84 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -752,7 +752,11 @@ class SectionTerm(Term):
         """Add a term to this section and set it's ownership. Should only be used on root level terms"""
         if t not in self.terms:
             if t.parent_term_lc == 'root':
+                if t.section and t.section is not self and t.section.doc is self.doc:
+                    t.section.remove_term(t, remove_from_doc=False)
+
                 self.terms.append(t)
+                t._section = self
 
                 self.doc.add_term(t, add_section=False)
 
-- 
2.43.0


From eb35bb9f5b7feb3ba2020aa394d459840e35ebf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:16:43 +0000
Subject: [PATCH 20/33] fix: a term with the same name as its parent is a child
 of the parent, not of itself

---
 metatab/parser.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index c50b6ba..ca25f86 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -503,16 +503,16 @@ class TermParser(object):
                         last_term_map[last_parent_term].add_child(t)
 
                     else:
-                        last_parent_term = t.record_term
-                        last_term_map[ELIDED_TERM] = t
-                        last_term_map[t.record_term] = t
-
                         try:
                             last_term_map[t.parent_term].add_child(t)
                         except KeyError:
                             raise ParserError("No parent term for '{}' in term '{}', row = {}"
                                               .format(t.parent_term, t.term, t.row))
 
+                        last_parent_term = t.record_term
+                        last_term_map[ELIDED_TERM] = t
+                        last_term_map[t.record_term] = t
+
                     if t.parent_term_lc == 'root':
                         last_section.add_term(t)
 
-- 
2.43.0


From 2b31d60516a56350d3d8889498c5f3b6c55d582c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:21:21 +0000
Subject: [PATCH 21/33] fix: testing whether a term has a property does not
 raise AttributeError

---
 metatab/terms.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/terms.py b/metatab/terms.py
index 4ee9d84..43edf6c 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -321,7 +321,7 @@ class Term(object):
         if item.lower() == 'value':
             return True
 
-        return item.lower() in self._common_properties or item.lower() in self.properties
+        return item.lower() in self._common_properties or item.lower() in self.props
 
     def __getattr__(self, item):
         """Maps values to attributes.
-- 
2.43.0


From ab6f4714d664dde140179514cfc1ba5539d81398 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:01 +0000
Subject: [PATCH 22/33] fix: the property columns of the root section are
 written to rows and CSV

---
 metatab/doc.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metatab/doc.py b/metatab/doc.py
index f325e0d..7fa8613 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -809,6 +809,9 @@ class MetatabDoc(object):
             if s.name != 'Root':
                 yield ['']  # Unecessary, but makes for nice formatting. Should actually be done just before write
                 yield ['Section', s.value] + s.property_names
+            elif s.property_names:
+                # The root section has no Section row to name the columns of its properties
+                yield ['Header', ''] + s.property_names
 
             # Yield all of the rows for terms in the section
             for row in s.rows:
-- 
2.43.0


From 752a772dd6c79484f7d0e3a82ce19de3a65b38b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:26:53 +0000
Subject: [PATCH 23/33] fix: an empty (None) cell does not become a property
 with the value 'None'

---
 metatab/parser.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index ca25f86..103d194 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -393,7 +393,7 @@ class TermParser(object):
                 # Yield any child terms, from the term row arguments
                 if not t.term_is('section') and not t.term_is('header'):
                     for col, value in enumerate(t.args, 0):
-                        if str(value).strip():
+                        if value is not None and str(value).strip():
 
                             term_name = t.record_term_lc + '.' + str(col)
 
-- 
2.43.0


From da2e5074edc9bb0860b9c493806074aa6bd32c6d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:40:33 +0000
Subject: [PATCH 24/33] fix: update_name only regenerates the name when the
 root section has a Dataset

---
 metatab/doc.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/doc.py b/metatab/doc.py
index 7fa8613..01e0b83 100644
--- a/metatab/doc.py
+++ b/metatab/doc.py
@@ -674,7 +674,7 @@ class MetatabDoc(object):
 
         identifier = self.get_value('Root.Identifier')
 
-        datasetname = self.get_value('Root.Dataset')
+        datasetname = self.get_value('Root.Dataset', section='Root')
 
         if datasetname:
 
-- 
2.43.0


From 369352a5f15a803f986c198237f29a08431dd235 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:43:23 +0000
Subject: [PATCH 25/33] fix: a column or value name that is the name of a term
 attribute does not capture assignments to the attribute

---
 metatab/terms.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/metatab/terms.py b/metatab/terms.py
index 43edf6c..32faae2 100644
--- a/metatab/terms.py
+++ b/metatab/terms.py
@@ -361,6 +361,11 @@ class Term(object):
             # Not initialized yet; set attributes normally.
             return object.__setattr__(self, item, value)
 
+        elif getattr(getattr(type(self), item, None), 'fset', None):
+            # The class has a setter for the attribute, which a section column or term value name
+            # of the same name must not replace
+            object.__setattr__(self, item, value)
+
         elif item in self.__dict__ and not (item.lower() == self.term_value_name.lower() or item.lower() == 'value'):
             # Value already exists as an attribute in the object, and the name is not
             # the value name
-- 
2.43.0


From 9aba3e9053eb92f8ae7cc08282a43ce338758d19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:07 +0000
Subject: [PATCH 26/33] fix: terms with an elided parent get the type and value
 name declared for them

---
 metatab/parser.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/metatab/parser.py b/metatab/parser.py
index 103d194..7830832 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -476,6 +476,12 @@ class TermParser(object):
 
                     # Case for normal, value-bearing terms
 
+                    has_elided_parent = t.has_elided_parent
+
+                    if has_elided_parent:
+                        # Elided parent terms refer to the last term that can be a parent
+                        t.parent_term = last_parent_term # After this t.has_elided_parent will be False
+
                     t.child_property_type = self._declared_terms \
                         .get(t.join, {}) \
                         .get('childpropertytype', 'any')
@@ -493,10 +499,7 @@ class TermParser(object):
                     # Only terms with the term name in the first column can be parents of
                     # other terms. This rule excludes argument terms and terms with an elided parent
 
-                    if t.has_elided_parent:
-                        # Elided parent terms refer to the last term that can be a parent
-                        t.parent_term = last_parent_term # After this t.has_elided_parent will be False
-
+                    if has_elided_parent:
                         last_term_map[last_parent_term].add_child(t)
 
                     elif t.is_arg_child:
-- 
2.43.0


From d4954d54d878b81e58cfe0fd14a6d1000a1a5494 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:46:40 +0000
Subject: [PATCH 27/33] fix: columns and value names of an included or
 declaration file do not apply to the including document

---
 metatab/parser.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metatab/parser.py b/metatab/parser.py
index 7830832..4cabf44 100644
--- a/metatab/parser.py
+++ b/metatab/parser.py
@@ -469,6 +469,9 @@ class TermParser(object):
                     t.section = None
 
                 elif t.term_is('root.root'):
+                    # Back in the root section, after an include or declare: its columns and value name apply again
+                    self._param_map = [p.lower() if p else i for i, p in enumerate(t.property_names)]
+                    default_term_value_name = t.default_term_value_name
                     last_section = t
                     t.section = None
 
-- 
2.43.0


From b899d8bb56965203cd838d0c40b530627c2cfb08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:48:00 +0000
Subject: [PATCH 28/33] fix: the row generator entry points name a module that
 exists, so line files can be opened by path

---
 metatab/rowgenerators.py | 6 ++++++
 1 file changed, 6 insertions(+)
 create mode 100644 metatab/rowgenerators.py

diff --git a/metatab/rowgenerators.py b/metatab/rowgenerators.py
new file mode 100644
index 0000000..823d11d
--- /dev/null
+++ b/metatab/rowgenerators.py
@@ -0,0 +1,6 @@
+# Copyright (c) 2017 Civic Knowledge. This file is licensed under the terms of the
+# MIT License, included in this distribution as LICENSE.txt
+
+"""The row generators, under the module name that the entry points in setup.py use"""
+
+from metatab.rowgen import MetatabRowGenerator, TextRowGenerator, YamlMetatabSource
-- 
2.43.0


From 943eca1ed466e80948a5fb369db535065d24e86b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:44 +0000
Subject: [PATCH 29/33] fix: a column with no properties can be converted to a
 datapackage field

---
 metatab/datapackage.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/metatab/datapackage.py b/metatab/datapackage.py
index 07854e7..fb820c5 100644
--- a/metatab/datapackage.py
+++ b/metatab/datapackage.py
@@ -50,6 +50,9 @@ def convert_to_datapackage(doc):
         def mkdict(c):
             d = {}
 
+            if not hasattr(c, 'get'):  # A column with no properties is just its name
+                c = {'name': c}
+
             for prop in ('name', 'title', 'description'):
                 if c.get(prop):
                     d[prop] = c[prop]
-- 
2.43.0


From b58cb87584b95044282cab16a5281454e8d833ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Tue, 17 Nov 2026 22:49:44 +0000
Subject: [PATCH 30/33] fix: converting a table with no columns to a
 datapackage raises ConversionError

---
 metatab/datapackage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/datapackage.py b/metatab/datapackage.py
index fb820c5..5e102f6 100644
--- a/metatab/datapackage.py
+++ b/metatab/datapackage.py
@@ -32,7 +32,7 @@ def convert_to_datapackage(doc):
 
     try:
         table_schemas = {t.value: t.as_dict()['column'] for t in doc['schema']}
-    except KeyError as e:
+    except (KeyError, TypeError) as e:  # TypeError -> the table has no properties at all
         raise ConversionError("Failed to get schemas: " + str(e))
 
     file_resources = [fr.arg_props for fr in doc['resources'] if fr.term_is('root.datafile')]
-- 
2.43.0


From ef994062e429edb3c69c37862cf50e3f6091c607 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:52 +0000
Subject: [PATCH 31/33] fix: a data file whose properties are rows of their own
 is a resource of the datapackage too

Documents in line format, and terms created by editing, have their properties as children and
no arguments, so their data files had no name and no table and were left out.
---
 metatab/datapackage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/datapackage.py b/metatab/datapackage.py
index 5e102f6..fdbe786 100644
--- a/metatab/datapackage.py
+++ b/metatab/datapackage.py
@@ -35,7 +35,7 @@ def convert_to_datapackage(doc):
     except (KeyError, TypeError) as e:  # TypeError -> the table has no properties at all
         raise ConversionError("Failed to get schemas: " + str(e))
 
-    file_resources = [fr.arg_props for fr in doc['resources'] if fr.term_is('root.datafile')]
+    file_resources = [fr.all_props for fr in doc['resources'] if fr.term_is('root.datafile')]
 
     dp['resources'] = []
 
-- 
2.43.0


From ece47cfe3c5a53493baba0eb71639949974ad19c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:52 +0000
Subject: [PATCH 32/33] fix: a blank name does not become the name of a
 datapackage

The identifier is used instead, and a document with neither is refused, as without a Name row.
---
 metatab/datapackage.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/metatab/datapackage.py b/metatab/datapackage.py
index fdbe786..00480d7 100644
--- a/metatab/datapackage.py
+++ b/metatab/datapackage.py
@@ -24,8 +24,8 @@ def convert_to_datapackage(doc):
     except KeyError as e:
         pass
 
-    if not 'name' in dp:
-        if 'identifier' in dp:
+    if not dp.get('name'):
+        if dp.get('identifier'):
             dp['name'] = dp['identifier']
         else:
             raise ConversionError("Datapackage.json requires a Name or Identity term")
-- 
2.43.0


From c1e2f850acc9bf0d9605b6a53fe298f17461f2b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:48:52 +0000
Subject: [PATCH 33/33] fix: a data file without a name property does not end
 the conversion to a datapackage

A blank name cell already gave an empty name.
---
 metatab/datapackage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/metatab/datapackage.py b/metatab/datapackage.py
index 00480d7..cac9198 100644
--- a/metatab/datapackage.py
+++ b/metatab/datapackage.py
@@ -63,7 +63,7 @@ def convert_to_datapackage(doc):
 
         dr = dict(
             path=r['url'],
-            name=r['name'],
+            name=r.get('name', ''),
             schema={'fields': [mkdict(c) for c in columns]}
         )
 
-- 
2.43.0

