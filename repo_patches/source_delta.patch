From 1b75f6b90427b7cc5585430cee35a304c19b740a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:05 +0000
Subject: [PATCH 01/27] fix: Spaces.count can be set back to one space

---
 ezodf/whitespaces.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/whitespaces.py b/ezodf/whitespaces.py
index 261d750..1ac4fd7 100644
--- a/ezodf/whitespaces.py
+++ b/ezodf/whitespaces.py
@@ -48,6 +48,8 @@ class Spaces(Tabulator):
     def count(self, value):
         if int(value) > 1:
             self.set_attr(CN('text:c'), tostr(value))
+        else: # a missing count attribute means one space
+            self.xmlnode.attrib.pop(CN('text:c'), None)
 
     @property
     def textlen(self):
-- 
2.43.0


From 378921d48d28b8414470a8033c8f635fbd9e2e79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:30 +0000
Subject: [PATCH 02/27] fix: Cell.set_value removes the currency of a previous
 value

---
 ezodf/cells.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index a8766d4..bcc79cd 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -133,8 +133,11 @@ class Cell(GenericWrapper):
             self.set_attr(TYPE_VALUE_MAP[value_type], value)
         self._set_value_type(value_type)
 
-        if currency and (value_type == 'currency'):
-            self.set_attr(CN('office:currency'), currency)
+        if value_type == 'currency':
+            if currency:
+                self.set_attr(CN('office:currency'), currency)
+        else: # a previous currency is not valid for other value types
+            self.xmlnode.attrib.pop(CN('office:currency'), None)
 
     def _set_value_type(self, value_type):
         self.set_attr(CN('office:value-type'), value_type)
-- 
2.43.0


From c55965b2647d072e2c036fb3bf764e2842ff3dd7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:32 +0000
Subject: [PATCH 03/27] fix: deleting not existing cell span attributes is not
 an error

---
 ezodf/cells.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index bcc79cd..98e2e3f 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -211,8 +211,10 @@ class Cell(GenericWrapper):
             self._set_span_attributes(rows, cols)
 
     def _del_span_attributes(self):
-        del self.xmlnode.attrib[CN('table:number-rows-spanned')]
-        del self.xmlnode.attrib[CN('table:number-columns-spanned')]
+        for key in (CN('table:number-rows-spanned'),
+                    CN('table:number-columns-spanned')):
+            if key in self.xmlnode.attrib:
+                del self.xmlnode.attrib[key]
 
     def _set_span_attributes(self, rows, cols):
         self.xmlnode.set(CN('table:number-rows-spanned'), tostr(rows))
-- 
2.43.0


From 34820c7a15441577031f11a27fb69019644e6b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:35 +0000
Subject: [PATCH 04/27] fix: import missing 'tostr' in cellspancontroller

---
 ezodf/cellspancontroller.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/ezodf/cellspancontroller.py b/ezodf/cellspancontroller.py
index 1d1a7db..443534d 100644
--- a/ezodf/cellspancontroller.py
+++ b/ezodf/cellspancontroller.py
@@ -7,6 +7,7 @@
 from __future__ import unicode_literals, print_function, division
 __author__ = "mozman <mozman@gmx.at>"
 
+from .compatibility import tostr
 from .xmlns import wrap
 from .tableutils import iter_cell_range, iter_cell_range_without_start_pos
 
-- 
2.43.0


From 4f8e3b7c512fa31b1a2fdb7334b2646c1a258847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:58 +0000
Subject: [PATCH 05/27] fix: do not span over cells which are covered by
 another span

---
 ezodf/cellspancontroller.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ezodf/cellspancontroller.py b/ezodf/cellspancontroller.py
index 443534d..47c86e0 100644
--- a/ezodf/cellspancontroller.py
+++ b/ezodf/cellspancontroller.py
@@ -46,7 +46,8 @@ class CellSpanController(object):
 
     def _has_cell_range_spanned_cells(self, pos, size):
         for cell_index in iter_cell_range(pos, size):
-            if self.is_cell_spanning(cell_index):
+            # a covered cell belongs to the span of another cell
+            if self.is_cell_spanning(cell_index) or self._get_cell(cell_index).covered:
                 return True
         return False
 
-- 
2.43.0


From cffcb1308add1494d1eb755b014f13d2bdf170bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:55 +0000
Subject: [PATCH 06/27] fix: negative cell indices beyond the table limits
 raise IndexError

---
 ezodf/tablerowcontroller.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/tablerowcontroller.py b/ezodf/tablerowcontroller.py
index 6b1749d..0120a76 100644
--- a/ezodf/tablerowcontroller.py
+++ b/ezodf/tablerowcontroller.py
@@ -49,6 +49,8 @@ class TableCellAccessor(object):
             row += self.nrows()
         if col < 0:
             col += self.ncols()
+        if row < 0 or col < 0:
+            raise IndexError('cell index out of range')
         return (row, col)
 
     def row(self, index):
-- 
2.43.0


From 622e2e52144d0ea73a92ae9c53bf8c24479a1fd1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:58 +0000
Subject: [PATCH 07/27] fix: check row and column ranges before any content is
 inserted or deleted

---
 ezodf/tablecolumncontroller.py | 4 ++++
 ezodf/tablerowcontroller.py    | 6 ++++++
 2 files changed, 10 insertions(+)

diff --git a/ezodf/tablecolumncontroller.py b/ezodf/tablecolumncontroller.py
index e273d43..fe7cddb 100644
--- a/ezodf/tablecolumncontroller.py
+++ b/ezodf/tablecolumncontroller.py
@@ -141,6 +141,8 @@ class TableColumnController(object):
             raise ValueError('count < 1')
         if index < 0:
             index += len(self)
+        if not 0 <= index < len(self):
+            raise IndexError('column index out of range')
         for _ in range(count):
             column = new_empty_column()
             insertpos = self._columns[index]
@@ -152,6 +154,8 @@ class TableColumnController(object):
             raise ValueError('count < 1')
         if index < 0:
             index += len(self)
+        if index < 0 or index + count > len(self):
+            raise IndexError('column index out of range')
         for _ in range(count):
             column = self._columns[index]
             column.getparent().remove(column)
diff --git a/ezodf/tablerowcontroller.py b/ezodf/tablerowcontroller.py
index 0120a76..10f324c 100644
--- a/ezodf/tablerowcontroller.py
+++ b/ezodf/tablerowcontroller.py
@@ -123,6 +123,8 @@ class TableRowController(TableCellAccessor):
             raise ValueError('invalid count')
         if index < 0:
             index += self.nrows()
+        if index < 0 or index + count > self.nrows():
+            raise IndexError('row index out of range')
 
         for _ in range(count):
             delete_row = self._rows.pop(index)
@@ -140,6 +142,8 @@ class TableRowController(TableCellAccessor):
             raise ValueError('count < 1')
         if index < 0:
             index += self.ncols()
+        if not 0 <= index < self.ncols():
+            raise IndexError('column index out of range')
 
         for row in self._rows:
             for _ in range(count):
@@ -150,6 +154,8 @@ class TableRowController(TableCellAccessor):
             raise ValueError('invalid count')
         if index < 0:
             index += self.ncols()
+        if index < 0 or index + count > self.ncols():
+            raise IndexError('column index out of range')
 
         for row in self._rows:
             for _ in range(count):
-- 
2.43.0


From d508e9c296e77a721fd1644c21d634c5bd724ee3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:30 +0000
Subject: [PATCH 08/27] fix: an invalid table size does not destroy the table
 content

---
 ezodf/table.py              | 3 +++
 ezodf/tablerowcontroller.py | 2 +-
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 19e10fe..61ec9ec 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -87,6 +87,9 @@ class Table(GenericWrapper):
         return self._cellmatrix.ncols()
 
     def reset(self, size=(10, 10)):
+        nrows, ncols = size
+        if nrows < 1 or ncols < 1:
+            raise ValueError('invalid table size.')
         preserve_name = self.name
         super(Table, self).clear()
 
diff --git a/ezodf/tablerowcontroller.py b/ezodf/tablerowcontroller.py
index 10f324c..c4fad01 100644
--- a/ezodf/tablerowcontroller.py
+++ b/ezodf/tablerowcontroller.py
@@ -73,9 +73,9 @@ class TableRowController(TableCellAccessor):
             if ncols < 1:
                 raise ValueError('ncols has to be >= 1.')
 
-        self._remove_existing_rows()
         nrows, ncols = size
         validate_parameter(nrows, ncols)
+        self._remove_existing_rows()
         self.xmlnode.extend( (self._build_new_row(ncols) for _ in range(nrows)) )
         self.update()
 
-- 
2.43.0


From 208d5e77251705492757a9bb24447e5c5c223524 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:33 +0000
Subject: [PATCH 09/27] fix: Table.reset works for tables without a name

---
 ezodf/table.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ezodf/table.py b/ezodf/table.py
index 61ec9ec..277648c 100644
--- a/ezodf/table.py
+++ b/ezodf/table.py
@@ -93,7 +93,8 @@ class Table(GenericWrapper):
         preserve_name = self.name
         super(Table, self).clear()
 
-        self.name = preserve_name
+        if preserve_name is not None:
+            self.xmlnode.set(CN('table:name'), preserve_name)
         self._cellmatrix.reset(size)
         self._columns_info.reset(size[1])
 
-- 
2.43.0


From 6e96e2192b7a3e90eb9412d1baa1d414aff7d57b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:35 +0000
Subject: [PATCH 10/27] fix: an invalid cell reference type raises TypeError

---
 ezodf/tableutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index 26ef0d9..0bb88bc 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -53,7 +53,7 @@ def get_cell_index(reference):
     elif is_string(reference): # key => 'A1'
         return address_to_index(reference)
     else:
-        raise TypeError(tostr(type(key)))
+        raise TypeError(tostr(type(reference)))
 
 def get_min_max_cell_count(xmltable):
     count = [count_cells_in_row(xmlrow) for xmlrow in get_table_rows(xmltable)]
-- 
2.43.0


From f6009c8e6bf829a1081a131436dac261398f54fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:37 +0000
Subject: [PATCH 11/27] fix: reject cell addresses with row number 0 or
 trailing newline

---
 ezodf/tableutils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/tableutils.py b/ezodf/tableutils.py
index 0bb88bc..c7026c4 100644
--- a/ezodf/tableutils.py
+++ b/ezodf/tableutils.py
@@ -28,7 +28,7 @@ def iter_cell_range_without_start_pos(pos, size):
     next(generator)
     return generator
 
-CELL_ADDRESS = re.compile('^([A-Z]+)(\d+)$')
+CELL_ADDRESS = re.compile(r'^([A-Z]+)([0-9]*[1-9][0-9]*)\Z')
 
 def address_to_index(address):
     def column_name_to_index(colname):
-- 
2.43.0


From 3f2cb04d52274515e37fb163ed87c2f775030ef2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:08 +0000
Subject: [PATCH 12/27] fix: sheet and page positions are relative to the
 sheets and pages

---
 ezodf/pagecontainer.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/ezodf/pagecontainer.py b/ezodf/pagecontainer.py
index e4701ca..f103386 100644
--- a/ezodf/pagecontainer.py
+++ b/ezodf/pagecontainer.py
@@ -84,8 +84,19 @@ class AbstractPageContainer(object):
         return (child.get(self._nametag) for child in self._xmlchildren())
 
     def index(self, child):
-        return self.xmlnode.index(child.xmlnode)
+        # the body contains other elements than tables or pages
+        return self._xmlchildren().index(child.xmlnode)
 
     def insert(self, index, child):
-        self.xmlnode.insert(int(index), child.xmlnode)
+        # same semantic as list.insert()
+        children = self._xmlchildren()
+        index = int(index)
+        if index < 0:
+            index = max(0, index + len(children))
+        if index < len(children):
+            children[index].addprevious(child.xmlnode)
+        elif children:
+            children[-1].addnext(child.xmlnode)
+        else:
+            self.xmlnode.append(child.xmlnode)
         return child
-- 
2.43.0


From a4472fa2e0340fb270abe5d52e74010b4fcac316 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:27 +0000
Subject: [PATCH 13/27] fix: user fields accept 0 and the empty string as value

---
 ezodf/variables.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 3c28709..29bb95e 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -147,10 +147,10 @@ class UserField(Variable):  # {{{1
             self.type = 'boolean'
             self.set_bool_attr(CN('office:boolean-value'), v)
         elif vtype == int or vtype == float:
-            self.set_attr(CN('office:value'), v)
+            self.xmlnode.set(CN('office:value'), tostr(v))
             self.type = 'float'
         else:
-            self.set_attr(CN('office:string-value'), v)
+            self.xmlnode.set(CN('office:string-value'), tostr(v))
             self.type = 'string'
 
 
-- 
2.43.0


From 5b02b6cf07a55885a1ca893349e53c1ccc2c62b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:29 +0000
Subject: [PATCH 14/27] fix: boolean variable instances store 'true' or 'false'

---
 ezodf/variables.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 29bb95e..4c0ea45 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -179,6 +179,7 @@ class SimpleVariableInstance(GenericWrapper):  # {{{1
         vtype = type(v)
         self.text = tostr(v)
         if vtype == bool:
+            self.text = 'true' if v else 'false'
             self.type = 'boolean'
         elif vtype == int or vtype == float:
             self.type = 'float'
@@ -236,6 +237,7 @@ class UserFieldInstance(GenericWrapper):  # {{{1
         vtype = type(v)
         self.text = tostr(v)
         if vtype == bool:
+            self.text = 'true' if v else 'false'
             self.type = 'boolean'
         elif vtype == int or vtype == float:
             self.type = 'float'
-- 
2.43.0


From 5cf81906670128109a40c113e225d42ac5792b32 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:02 +0000
Subject: [PATCH 15/27] fix: variable names can contain quotation marks

---
 ezodf/variables.py | 21 ++++++++-------------
 1 file changed, 8 insertions(+), 13 deletions(-)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index 4c0ea45..ea1a87e 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -50,6 +50,9 @@ class UserFields(Variables):  # {{{1
 
 
 class Variable(GenericWrapper):  # {{{1
+    INSTANCE_TAGS = (CN('text:variable-set'),
+                     CN('text:variable-get'),
+                     CN('text:variable-input'))
 
     def __init__(self, xmlnode=None):  # {{{2
         """docstring for __init__"""
@@ -58,19 +61,11 @@ class Variable(GenericWrapper):  # {{{1
 
     @property
     def instances(self):  # {{{2
-        vs = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:variable-set'),
-                                                       CN('text:name'),
-                                                       self.name))
-        vg = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:variable-get'),
-                                                       CN('text:name'),
-                                                       self.name))
-        vi = self.get_xmlroot().findall(".//%s[@%s='%s']" %
-                                                      (CN('text:variable-input'),
-                                                       CN('text:name'),
-                                                       self.name))
-        return itermap(wrap, vs + vg + vi)
+        # compare names in Python, XPath literals can not contain all characters
+        root = self.get_xmlroot()
+        return itermap(wrap, [node for tag in self.INSTANCE_TAGS
+                              for node in root.findall(".//" + tag)
+                              if node.get(CN('text:name')) == self.name])
 
     @property
     def type(self):  # {{{2
-- 
2.43.0


From d62818d18df2a2eed251afe82a075bfd959fef1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:04 +0000
Subject: [PATCH 16/27] fix: user fields update their own instances

---
 ezodf/variables.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ezodf/variables.py b/ezodf/variables.py
index ea1a87e..fc7e3ee 100644
--- a/ezodf/variables.py
+++ b/ezodf/variables.py
@@ -114,6 +114,9 @@ class SimpleVariable(Variable):  # {{{1
 @register_class
 class UserField(Variable):  # {{{1
     TAG = CN('text:user-field-decl')
+    INSTANCE_TAGS = (CN('text:user-field-set'),
+                     CN('text:user-field-get'),
+                     CN('text:user-field-input'))
 
     @property
     def value(self):  # {{{2
-- 
2.43.0


From c272aa5ab53ba908e80a3a5e869665b52888a8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:06 +0000
Subject: [PATCH 17/27] fix: a replaced style is cached as XML node

---
 ezodf/styles.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/styles.py b/ezodf/styles.py
index 53afcc1..b6617b1 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -53,7 +53,7 @@ class Container(object):
             self.xmlnode.append(value.xmlnode)
         else:
             self.xmlnode.replace(style, value.xmlnode)
-        self._cache[key] = value
+        self._cache[key] = value.xmlnode
 
     def _find(self, name):
         try:
-- 
2.43.0


From 2f14ab0d4e2733920b207d9fd34b229ba5c18303 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:08 +0000
Subject: [PATCH 18/27] fix: page layouts can be wrapped

---
 ezodf/styles.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ezodf/styles.py b/ezodf/styles.py
index b6617b1..2bea7cd 100644
--- a/ezodf/styles.py
+++ b/ezodf/styles.py
@@ -146,8 +146,8 @@ class PageLayout(BaseStyle):
         'name': CN('style:name'),
         'page-usage': CN('style:page-usage'), # all | left | right | mirrored
     }
-    def __init__(self, xmlelement):
-        super(PageLayout, self).__init__(xmlelement)
+    def __init__(self, xmlnode):
+        super(PageLayout, self).__init__(xmlnode)
         self.header = self._properties(CN('style:header-style'), HeaderProperties)
         self.footer = self._properties(CN('style:footer-style'), HeaderProperties)
 
-- 
2.43.0


From f482d9ea52b1e6dec5d4ff2698770e96ed1f7f85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:09 +0000
Subject: [PATCH 19/27] fix: replacing a user-defined metatag also replaces its
 value type

---
 ezodf/meta.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index 056deb4..93103a7 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -151,6 +151,8 @@ class Usertags(object):
         tag.text = tostr(value)
         if value_type is not None:
             tag.set(CN('meta:value-type'), value_type)
+        else: # a missing value type means 'string'
+            tag.attrib.pop(CN('meta:value-type'), None)
 
     def __setitem__(self, name, value):
         self.set(name, value)
-- 
2.43.0


From 77a0e9974afe6ae827fac3e670c62952c76f3e4f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:11 +0000
Subject: [PATCH 20/27] fix: an error while saving does not lose the mimetype
 of the document

---
 ezodf/filemanager.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ezodf/filemanager.py b/ezodf/filemanager.py
index 9545901..d796a7e 100644
--- a/ezodf/filemanager.py
+++ b/ezodf/filemanager.py
@@ -139,17 +139,17 @@ class FileManager(object):
 
     def _tozip(self, zippo):
         # mimetype file should be the first & uncompressed file in zipfile
-        mimetype = self.directory.pop('mimetype')
+        mimetype = self.directory['mimetype']
         mimetype.zipinfo.compress_type = zipfile.ZIP_STORED
         zippo.writestr(mimetype.zipinfo, mimetype.tobytes())
         processed = [mimetype.filename]
 
         for file in self.directory.values():
+            if file is mimetype:
+                continue
             zippo.writestr(file.zipinfo, file.tobytes())
             processed.append(file.filename)
 
-        # push mimetype back to directory
-        self.directory['mimetype'] = mimetype
         self._copy_zip_to(zippo, processed)
 
     def _copy_zip_to(self, newzip, ignore=[]):
-- 
2.43.0


From 043d829e9d56afdf2e309f487edd78a23b91af16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:13 +0000
Subject: [PATCH 21/27] fix: a root element without children is a valid
 broadcast root

---
 ezodf/observer.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/observer.py b/ezodf/observer.py
index 4eb66d3..9c5244a 100644
--- a/ezodf/observer.py
+++ b/ezodf/observer.py
@@ -98,7 +98,7 @@ class Observer(object):
             # but mispelling of 'event' is an error trap
             return
 
-        send = send_to_root if root else send_to_all
+        send = send_to_root if root is not None else send_to_all
         for listener in event_listeners:
             send(listener)
 
-- 
2.43.0


From 49b53bcab4d4d6127de903976313c6d4d321c224 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:40 +0000
Subject: [PATCH 22/27] fix: textlen of cells and list items is the length of
 the plain text

---
 ezodf/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/base.py b/ezodf/base.py
index 61f9bc1..351220a 100644
--- a/ezodf/base.py
+++ b/ezodf/base.py
@@ -156,7 +156,7 @@ class GenericWrapper(object):
     @property
     def textlen(self):
         """ Returns the character count of the plain text content as int. """
-        return safelen(self.xmlnode.text)
+        return len(self.plaintext())
 
     def plaintext(self):
         """ Get content of node as plain (unformatted) text string. """
-- 
2.43.0


From 3d00545f6bd1ca1b4bc1ec3fe46705852c3fa15f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:15 +0000
Subject: [PATCH 23/27] fix: expand strategy 'all_less_maxcount' with a
 maxcount of 1

---
 ezodf/tablecolumncontroller.py | 2 +-
 ezodf/tablenormalizer.py       | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/ezodf/tablecolumncontroller.py b/ezodf/tablecolumncontroller.py
index fe7cddb..e8c30e5 100644
--- a/ezodf/tablecolumncontroller.py
+++ b/ezodf/tablecolumncontroller.py
@@ -55,7 +55,7 @@ class _ExpandAllLessMaxCount(_ExpandAll):
         if 1 < count < maxcols:
             del repeat.cols
             self.expand_element(count, xmlcolumn)
-        elif count >= maxcols:
+        elif count > 1:
             del repeat.cols # column just appears only one time
 
 expand_strategies = {
diff --git a/ezodf/tablenormalizer.py b/ezodf/tablenormalizer.py
index bcaca5e..992fdf8 100644
--- a/ezodf/tablenormalizer.py
+++ b/ezodf/tablenormalizer.py
@@ -94,7 +94,7 @@ class _ExpandAllLessMaxCount(_ExpandAll):
         if 1 < count < self.maxcols:
             del repeat.cols
             self.expand_element(xmlcell, count)
-        elif count >= self.maxcols:
+        elif count > 1:
             del repeat.cols # column just appears only one time
 
     def expand_row(self, xmlrow):
@@ -103,7 +103,7 @@ class _ExpandAllLessMaxCount(_ExpandAll):
         if 1 < count < self.maxrows:
             del repeat.rows
             self.expand_element(xmlrow, count)
-        elif count >= self.maxrows:
+        elif count > 1:
             del repeat.rows # row just appears only one time
 
 expand_strategies = {
-- 
2.43.0


From 67729d9d491678959767a770acf5b3b31752225c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:07 +0000
Subject: [PATCH 24/27] fix: Cell.set_value does not destroy the old value when
 the new value is invalid

---
 ezodf/cells.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ezodf/cells.py b/ezodf/cells.py
index 98e2e3f..cff60b5 100644
--- a/ezodf/cells.py
+++ b/ezodf/cells.py
@@ -122,6 +122,8 @@ class Cell(GenericWrapper):
             raise TypeError(value_type)
 
         value = convert(value, value_type)
+        if is_string(value) and not value: # attribute values can not be empty
+            raise ValueError("invalid value: %s" % tostr(value))
         self._clear_old_value()
         self._set_new_value(value, value_type, currency)
 
-- 
2.43.0


From fda348344a8107538cb0f6ac87c6e77e65fef9e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:36 +0000
Subject: [PATCH 25/27] fix: an error while serializing does not truncate an
 existing document

---
 ezodf/bytestreammanager.py | 3 ++-
 ezodf/document.py          | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ezodf/bytestreammanager.py b/ezodf/bytestreammanager.py
index b951d71..e0355a6 100644
--- a/ezodf/bytestreammanager.py
+++ b/ezodf/bytestreammanager.py
@@ -24,8 +24,9 @@ class ByteStreamManager(FileManager):
         if is_stream(filename):
             filename.write(self.tobytes())
         else:
+            content = self.tobytes() # before an existing file gets truncated
             with open(filename, 'wb') as fp:
-                fp.write(self.tobytes())
+                fp.write(content)
 
     def has_zip(self):
         return self._zipfile_as_bytes is not None
diff --git a/ezodf/document.py b/ezodf/document.py
index 27552df..55f8619 100644
--- a/ezodf/document.py
+++ b/ezodf/document.py
@@ -193,8 +193,9 @@ class FlatXMLDocument(_BaseDocument):
         os.rename(filename, bakfilename)
 
     def _writefile(self, filename):
+        content = self.tobytes() # before an existing file gets truncated
         with open(filename, 'wb') as fp:
-            fp.write(self.tobytes())
+            fp.write(content)
 
     def tobytes(self):
         return etree.tostring(self.xmlnode,
-- 
2.43.0


From 1c9a8f7276a21cd005331d8500e102796a6eccfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:33 +0000
Subject: [PATCH 26/27] fix: insert position in prelude and epilogue blocks
 with missing tags

---
 ezodf/nodeorganizer.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/ezodf/nodeorganizer.py b/ezodf/nodeorganizer.py
index f491c87..aceffa7 100644
--- a/ezodf/nodeorganizer.py
+++ b/ezodf/nodeorganizer.py
@@ -119,7 +119,7 @@ class PreludeTagBlock(object):
             pos, count = self.tag_info(tag)
             if count > 0:
                 return pos
-        return 0
+        return self._count_tags_in_block() # all existing tags are predecessors
 
     def _successor_tag(self, tag):
         tagpos = self.tags.index(tag)
@@ -173,4 +173,5 @@ class EpilogueTagBlock(PreludeTagBlock):
             pos, count = tag_info(tag)
             if count > 0:
                 return len(self.xmlnode) - pos
-        return len(self.xmlnode)
+        # all existing tags are successors
+        return len(self.xmlnode) - self._count_tags_in_block()
-- 
2.43.0


From 6f2fd3cb98e2927e07ddca94dde6ad1a7575bed2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:32 +0000
Subject: [PATCH 27/27] fix: an empty editing-cycles tag does not prevent
 saving

---
 ezodf/meta.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ezodf/meta.py b/ezodf/meta.py
index 93103a7..3dcfedb 100644
--- a/ezodf/meta.py
+++ b/ezodf/meta.py
@@ -82,7 +82,7 @@ class OfficeDocumentMeta(XMLMixin):
             count = self['editing-cycles']
             try:
                 count = int(count) + 1
-            except ValueError:
+            except (ValueError, TypeError): # TypeError: the tag is empty
                 count = 1
         except KeyError:
             count = 1
-- 
2.43.0

