From 83dc34e714f9e64cb212df1b31076c71c7e0eee0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 001/103] fix: do not change the owner document of a node whose
 insertion is refused

---
 svgpy/dom.py | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index c00e78e..be60922 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1218,8 +1218,8 @@ class Comment(etree.CommentBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
         super().addnext(node)
+        node.attach_document(self.owner_document)
 
     def addprevious(self, node):
         """Reimplemented from lxml.etree.CommentBase.addprevious().
@@ -1233,8 +1233,8 @@ class Comment(etree.CommentBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
         super().addprevious(node)
+        node.attach_document(self.owner_document)
 
     def append(self, node):
         """Reimplemented from lxml.etree.CommentBase.append().
@@ -1575,8 +1575,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
         super().addnext(node)
+        node.attach_document(self.owner_document)
 
     def addprevious(self, node):
         """Reimplemented from lxml.etree.ElementBase.addprevious().
@@ -1590,8 +1590,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
         super().addprevious(node)
+        node.attach_document(self.owner_document)
 
     def append(self, *nodes):
         """Inserts sub-nodes after the last child node.
@@ -1610,8 +1610,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                 tail = False if target == self else True
                 node_append_data(target, data, tail)
                 data = ''
-            node.attach_document(self.owner_document)
             super().append(node)
+            node.attach_document(self.owner_document)
             target = node
 
         if len(data) > 0:
@@ -1735,8 +1735,9 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         owner_document = self.owner_document
         for node in nodes:
             self.ensure_pre_insertion_validity(node)
-            node.attach_document(owner_document)
         super().extend(nodes)
+        for node in nodes:
+            node.attach_document(owner_document)
 
     def get_attribute(self, qualified_name):
         """Returns an attribute's value with the specified name.
@@ -2149,8 +2150,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Inserts a sub-node at the given position in this node.
         """
         self.ensure_pre_insertion_validity(node)
-        node.attach_document(self.owner_document)
         super().insert(index, node)
+        node.attach_document(self.owner_document)
 
     def insert_before(self, node, child):
         """Inserts a node into a parent before a child.
@@ -2213,10 +2214,9 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                 tail = False if target == self else True
                 node_prepend_data(target, data, tail)
                 data = ''
-            node.attach_document(self.owner_document)
             if first_child is None:
                 super().append(node)
-                first_child = node
+                node.attach_document(self.owner_document)
             else:
                 first_child.addprevious(node)
             target = node
@@ -2304,8 +2304,8 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         """
         self.ensure_pre_insertion_validity(new_node, old_node)
         self.ensure_pre_remove_validity(old_node)
-        new_node.attach_document(self.owner_document)
         super().replace(old_node, new_node)
+        new_node.attach_document(self.owner_document)
 
     def replace_child(self, node, child):
         """Replaces a child with node.
@@ -2520,8 +2520,8 @@ class ProcessingInstruction(etree.PIBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
         super().addnext(node)
+        node.attach_document(self.owner_document)
 
     def addprevious(self, node):
         """Reimplemented from lxml.etree.PIBase.addprevious().
@@ -2535,8 +2535,8 @@ class ProcessingInstruction(etree.PIBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
-        node.attach_document(self.owner_document)
         super().addprevious(node)
+        node.attach_document(self.owner_document)
 
     def append(self, node):
         """Reimplemented from lxml.etree.PIBase.append().
-- 
2.43.0


From 3eec94d1818c78898d5cfb174addd0183cce2b86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 002/103] fix: Element.extend() accepts any iterable of nodes

---
 svgpy/dom.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index be60922..37dcccb 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1733,6 +1733,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Extends the current children by the nodes in the iterable.
         """
         owner_document = self.owner_document
+        nodes = list(nodes)
         for node in nodes:
             self.ensure_pre_insertion_validity(node)
         super().extend(nodes)
-- 
2.43.0


From 459af01c3a11d0888f17c1b0b4c11cc50fe2b66a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 003/103] fix: Element.append() puts strings after the last
 child

---
 svgpy/dom.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 37dcccb..a692808 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1601,6 +1601,10 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         """
         data = ''
         target = self
+        for child in self.iterchildren(reversed=True):
+            if child not in nodes:
+                target = child
+                break
         for node in nodes:
             if isinstance(node, str):
                 data += node
-- 
2.43.0


From 03d76d3969acc64c2fcb23d81fc4da09f7b1fb5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:18:29 +0000
Subject: [PATCH 004/103] fix: Element.prepend() keeps the order of its
 arguments and the text

---
 svgpy/dom.py | 35 +++++++++++++++++++++++------------
 1 file changed, 23 insertions(+), 12 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index a692808..a5c924c 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -2204,33 +2204,44 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         Arguments:
             *nodes (Node, str, ...): A list of nodes to be added.
         """
-        first_child = self.first_child
+        for node in nodes:
+            if not isinstance(node, str):
+                self.ensure_pre_insertion_validity(node)
+        first_child = None
+        for child in self:
+            if child not in nodes:
+                first_child = child
+                break
         data = ''
+        lead = ''
         target = self
-        text = '' if self.text is None else self.text
-        if len(text) > 0:
-            self.text = ''
         for node in nodes:
             if isinstance(node, str):
                 data += node
                 continue
-            self.ensure_pre_insertion_validity(node)
-            if len(data) > 0:
-                tail = False if target == self else True
-                node_prepend_data(target, data, tail)
-                data = ''
             if first_child is None:
                 super().append(node)
                 node.attach_document(self.owner_document)
             else:
                 first_child.addprevious(node)
+            if target == self:
+                lead = data
+            elif len(data) > 0:
+                node_prepend_data(target, data)
+            data = ''
             target = node
 
-        tail = False if target == self else True
+        if target == self:
+            if len(data) > 0:
+                node_prepend_data(self, data, False)
+            return
         if len(data) > 0:
-            node_prepend_data(target, data, tail)
+            node_prepend_data(target, data)
+        text = '' if self.text is None else self.text
+        if len(text) > 0 or len(lead) > 0:
+            self.text = lead
         if len(text) > 0:
-            node_append_data(target, text, tail)
+            node_append_data(target, text)
 
     def query_selector_all(self, selectors):
         nsmap = self.nsmap.copy()
-- 
2.43.0


From a304d98e4d8805ecc97403211c6f04cd36be09f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:19:34 +0000
Subject: [PATCH 005/103] fix: a node appended as the document element leaves
 its old parent

---
 svgpy/window.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgpy/window.py b/svgpy/window.py
index 2354e84..7fa1f9b 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -253,6 +253,10 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
                 if not isinstance(node, Element):
                     raise HierarchyRequestError(
                         "The Element node must be insert first")
+                parent = node.getparent()
+                if parent is not None:
+                    parent.remove(node)
+                node.tail = None
                 node.attach_document(self)
                 root = self._document_element = node
             elif node == root:
-- 
2.43.0


From 43273e2a97ab846fe95f6a5f190306bd2b66792d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 006/103] fix: Document.replace() of a node with itself keeps
 it

---
 svgpy/window.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgpy/window.py b/svgpy/window.py
index 7fa1f9b..8daf7f3 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -632,6 +632,8 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         """
         self.ensure_pre_insertion_validity(new_node, old_node)
         self.ensure_pre_remove_validity(old_node)
+        if new_node == old_node:
+            return
         root = self._document_element
         if old_node == root:
             self.remove(old_node)
-- 
2.43.0


From 8c77ce2c7da0cf967465113b7bab597435b46fba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:22:53 +0000
Subject: [PATCH 007/103] fix: refuse a second element beside a document
 element that was detached before

---
 svgpy/dom.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index a5c924c..e710a3b 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -45,6 +45,12 @@ _RE_XML_NAME = re.compile(
     r"|-|\.|[0-9]|\xb7|[\u0300-\u036f]|[\u203f-\u2040])*$")
 
 
+def ensure_sibling_validity(child, node):
+    if child.getparent() is None and node.node_type == Node.ELEMENT_NODE:
+        raise TypeError('Only processing instructions and comments can be '
+                        'siblings of the root element')
+
+
 def node_append_data(node, data, tail=True):
     if tail:
         text = '' if node.tail is None else node.tail
@@ -1218,6 +1224,7 @@ class Comment(etree.CommentBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
+        ensure_sibling_validity(self, node)
         super().addnext(node)
         node.attach_document(self.owner_document)
 
@@ -1233,6 +1240,7 @@ class Comment(etree.CommentBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
+        ensure_sibling_validity(self, node)
         super().addprevious(node)
         node.attach_document(self.owner_document)
 
@@ -1575,6 +1583,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
+        ensure_sibling_validity(self, node)
         super().addnext(node)
         node.attach_document(self.owner_document)
 
@@ -1590,6 +1599,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
+        ensure_sibling_validity(self, node)
         super().addprevious(node)
         node.attach_document(self.owner_document)
 
@@ -2536,6 +2546,7 @@ class ProcessingInstruction(etree.PIBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
+        ensure_sibling_validity(self, node)
         super().addnext(node)
         node.attach_document(self.owner_document)
 
@@ -2551,6 +2562,7 @@ class ProcessingInstruction(etree.PIBase, CharacterData):
                 "This node type '{}' cannot insert as a sibling node of type "
                 "'{}'".format(node.__class__.__name__,
                               self.__class__.__name__))
+        ensure_sibling_validity(self, node)
         super().addprevious(node)
         node.attach_document(self.owner_document)
 
-- 
2.43.0


From 684d6cb92b4f40e0e460b59330d67dd492e2a1a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:27 +0000
Subject: [PATCH 008/103] fix: dataset keys and attribute names convert both
 ways

---
 svgpy/dom.py | 20 +++-----------------
 1 file changed, 3 insertions(+), 17 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index e710a3b..ce5dce2 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -137,23 +137,9 @@ class DOMStringMap(MutableMapping):
         self._owner_element.attributes[name] = value
 
     def _convert_key(self, name):
-        _name = name[len(self._prefix):]
-        length = len(_name)
-        key = ''
-        start = 0
-        while start < length:
-            end = _name.find('-', start)
-            if end == -1:
-                end = length
-            if start == end:
-                key += '-'
-            else:
-                part = _name[start:end]
-                if start != 0:
-                    part = part.capitalize()
-                key += part
-            start = end + 1
-        return key
+        return _RE_DOM_STRING_MAP_INVALID_SYNTAX.sub(
+            lambda matched: matched.group()[1].upper(),
+            name[len(self._prefix):])
 
     def _convert_name(self, key):
         if _RE_DOM_STRING_MAP_INVALID_SYNTAX.search(key) is not None:
-- 
2.43.0


From dc0a95c99bb5917e2a28a56f20ab813ccedeb202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:27 +0000
Subject: [PATCH 009/103] fix: setting a missing dataset entry to an empty
 string is no error

---
 svgpy/dom.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index ce5dce2..a57153b 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -127,10 +127,10 @@ class DOMStringMap(MutableMapping):
         return repr({key: value for key, value in self.items()})
 
     def __setitem__(self, key, value):
+        name = self._convert_name(key)
         if value is None or len(value) == 0:
-            del self[key]
+            self._owner_element.attributes[name] = None
             return
-        name = self._convert_name(key)
         if not self._validate_name(name):
             raise InvalidCharacterError("The string contains invalid "
                                         "characters: " + repr(name))
-- 
2.43.0


From 11fc80889c2493c4d18c5223644f6fde372e9b33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:27 +0000
Subject: [PATCH 010/103] fix: DOMTokenList is a set of tokens even if the
 attribute repeats one

---
 svgpy/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index a57153b..1ea22f2 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -215,7 +215,7 @@ class DOMTokenList(MutableSequence):
     def _tokens(self):
         """tuple[str, ...]: The token set."""
         value = self._owner_element.get(self._local_name, '')
-        tokens = tuple(value.split())
+        tokens = tuple(dict.fromkeys(value.split()))
         return tokens
 
     @property
-- 
2.43.0


From 589dfc5da2e6b4e26a69c4bac873548145485da6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:27 +0000
Subject: [PATCH 011/103] fix: DOMTokenList item assignment validates tokens
 and keeps its argument

---
 svgpy/dom.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 1ea22f2..f7ea768 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -196,12 +196,14 @@ class DOMTokenList(MutableSequence):
 
     def __setitem__(self, index, value):
         if isinstance(value, str):
+            if len(value) > 0:
+                self._validate_token(value)
             if value in self._tokens:
                 return
         elif isinstance(value, list):
-            for token in list(value):
-                if token in self._tokens:
-                    value.remove(token)
+            self._validate_tokens(value)
+            value = [token for token in dict.fromkeys(value)
+                     if token not in self._tokens]
             if len(value) == 0:
                 return
         else:
@@ -229,7 +231,7 @@ class DOMTokenList(MutableSequence):
         return ' '.join(self._tokens)
 
     def _set_tokens(self, tokens):
-        value = ' '.join(tokens).strip()
+        value = ' '.join(token for token in tokens if len(token) > 0)
         if len(value) == 0:
             if self._local_name in self._owner_element.attrib:
                 del self._owner_element.attrib[self._local_name]
-- 
2.43.0


From 7b4b84e45e4a2a2339754e785603290f38d836dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 012/103] fix: DOMRect.transform() takes all four corners into
 account

---
 svgpy/geometry/rect.py | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/svgpy/geometry/rect.py b/svgpy/geometry/rect.py
index 4caf1a3..07dbf4f 100644
--- a/svgpy/geometry/rect.py
+++ b/svgpy/geometry/rect.py
@@ -524,7 +524,7 @@ class DOMRect(DOMRectReadOnly):
         Returns:
             DOMRect: Returns itself.
         """
-        if not self.isvalid():
+        if self._x is None or self._y is None:
             return self
         # clockwise
         x1, y1, x3, y3 = self.get_coords()
@@ -536,11 +536,8 @@ class DOMRect(DOMRectReadOnly):
         x2, y2 = matrix.transform_point(x2, y2)
         x3, y3 = matrix.transform_point(x3, y3)
         x4, y4 = matrix.transform_point(x4, y4)
-        x1 = min(x1, x2, x3, x4)
-        y1 = min(y1, y2, y3, y4)
-        x3 = max(x1, x2, x3, x4)
-        y3 = max(y1, y2, y3, y4)
-        self.set_coords(x1, y1, x3, y3)
+        self.set_coords(min(x1, x2, x3, x4), min(y1, y2, y3, y4),
+                        max(x1, x2, x3, x4), max(y1, y2, y3, y4))
         return self
 
     def translate_self(self, dx, dy):
-- 
2.43.0


From 6dbb894f15ebea1c5b776bd688c9c6326631728a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:55:49 +0000
Subject: [PATCH 013/103] fix: DOMRect.unite() keeps the extent of a rectangle
 without area

---
 svgpy/geometry/rect.py | 38 ++++++++------------------------------
 1 file changed, 8 insertions(+), 30 deletions(-)

diff --git a/svgpy/geometry/rect.py b/svgpy/geometry/rect.py
index 07dbf4f..c5b9fe4 100644
--- a/svgpy/geometry/rect.py
+++ b/svgpy/geometry/rect.py
@@ -148,12 +148,8 @@ class DOMRectReadOnly(object):
         """
         if not self.isvalid():
             return False
-        if width <= 0 or height <= 0:
-            if self.left <= x <= self.right and self.top <= y <= self.bottom:
-                return True
-            return False
-        right = x + width
-        bottom = y + height
+        right = x + max(width, 0)
+        bottom = y + max(height, 0)
         if (self.left <= x <= self.right
                 and self.left <= right <= self.right
                 and self.top <= y <= self.bottom
@@ -580,29 +576,11 @@ class DOMRect(DOMRectReadOnly):
         elif self.contains(x, y, width, height):
             return self
 
+        right = x + max(width, 0)
+        bottom = y + max(height, 0)
         x1, y1, x2, y2 = self.get_coords()
-
-        if x1 is None or x < x1:
-            x1 = x
-        elif x > x2:
-            x2 = x
-
-        if y1 is None or y < y1:
-            y1 = y
-        elif y > y2:
-            y2 = y
-
-        if width > 0 and height > 0:
-            right = x + width
-            bottom = y + height
-            if x2 is None or right > x2:
-                x2 = right
-            if y2 is None or bottom > y2:
-                y2 = bottom
-
-        if x2 is not None and y2 is not None:
-            self.set_coords(x1, y1, x2, y2)
-        else:
-            self._x = x1
-            self._y = y1
+        if x1 is None or y1 is None:
+            return self.set_coords(x, y, right, bottom)
+        self.set_coords(min(x1, x), min(y1, y),
+                        max(x2, right), max(y2, bottom))
         return self
-- 
2.43.0


From bed03be2aa350d76f13b0ca07abf955e7def727c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:09:35 +0000
Subject: [PATCH 014/103] fix: SVGTransformList.initialize() keeps the list if
 the item is refused

---
 svgpy/transform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/svgpy/transform.py b/svgpy/transform.py
index a320263..483d3cc 100644
--- a/svgpy/transform.py
+++ b/svgpy/transform.py
@@ -449,6 +449,9 @@ class SVGTransformList(MutableSequence):
         Returns:
             SVGTransform: The SVGTransform object to be added.
         """
+        if not isinstance(item, SVGTransform):
+            raise TypeError('Expected SVGTransform, got {}'.format(
+                type(item)))
         self.clear()
         self.append(item)
         return item
-- 
2.43.0


From f1ab6d100929935183ad4460baf19a884cf9353b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:27:30 +0000
Subject: [PATCH 015/103] fix: get_elements_by_class_name() compares class
 names literally

---
 svgpy/utils.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/svgpy/utils.py b/svgpy/utils.py
index a568c28..9633205 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -106,12 +106,12 @@ def get_elements_by_class_name(element, class_names, nsmap=None,
         axis = 'descendant-or-self'
     else:
         axis = 'descendant'
-    patterns = [r're:test(@class, "(^| ){}($| )")'.format(x) for x in names]
+    variables = {'name{}'.format(i): ' {} '.format(x)
+                 for i, x in enumerate(names)}
+    patterns = ['contains(concat(" ", normalize-space(@class), " "), ${})'
+                .format(x) for x in variables]
     expr = '{}::*[{}]'.format(axis, ' and '.join(patterns))
-    if nsmap is None:
-        nsmap = dict()
-    nsmap['re'] = 'http://exslt.org/regular-expressions'
-    return element.xpath(expr, namespaces=nsmap)
+    return element.xpath(expr, namespaces=nsmap, **variables)
 
 
 def get_elements_by_tag_name(element, qualified_name, nsmap=None,
-- 
2.43.0


From 04b415af9f61801f9353a5ff0469df4184dab5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:28:47 +0000
Subject: [PATCH 016/103] fix: owner_svg_element and viewport_element are
 ancestors of the element

---
 svgpy/base.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 4f7bec8..33e1b34 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -149,8 +149,12 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
         farthest = self.get_farthest_svg_element()
         if farthest is not None and hash(farthest) == hash(self):
             return None
-        nearest = self.get_nearest_svg_element()
-        return nearest
+        parent = self.getparent()
+        while parent is not None:
+            if parent.local_name == 'svg':
+                return parent
+            parent = parent.getparent()
+        return None
 
     @property
     def viewport_element(self):
@@ -161,8 +165,12 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
         farthest = self.get_farthest_svg_element()
         if farthest is not None and hash(farthest) == hash(self):
             return None
-        nearest = self.get_nearest_viewport_element()
-        return nearest
+        parent = self.getparent()
+        while parent is not None:
+            if parent.local_name in ('svg', 'symbol'):
+                return parent
+            parent = parent.getparent()
+        return None
 
     def get_farthest_svg_element(self):
         """Returns the outermost 'svg' element.
-- 
2.43.0


From 4d7d14fda8badedbdb787b74ca8c364db3f2483e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:47 +0000
Subject: [PATCH 017/103] fix: path data keeps a closepath directly followed by
 a command

---
 svgpy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 8bccd28..0beaef3 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1173,7 +1173,7 @@ class PathParser(object):
     # See https://svgwg.org/specs/paths/#PathDataCatmullRomCommand
     RE_PATH_SEGMENT_LIST = re.compile(
         r"((?P<type>[AaBbCcHhLlMmQqSsTtVvZz])\s*"
-        r"(?P<values>([^AaBbCcHhLlMmQqSsTtVvZz]|$)+))")
+        r"(?P<values>[^AaBbCcHhLlMmQqSsTtVvZz]*))")
 
     RE_NUMBER_SEQUENCE = re.compile(
         r"(?P<number>[+-]?"
-- 
2.43.0


From e5885f28ccb3a4571f602c47f0163b754563957d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:47 +0000
Subject: [PATCH 018/103] fix: path data accepts arc flags without separators

---
 svgpy/path.py | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 0beaef3..2ddcabb 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1180,6 +1180,8 @@ class PathParser(object):
         r"((\d+(\.\d*)?([Ee][+-]?\d+)?)|(\d*\.\d+([Ee][+-]?\d+)?)))"
         r"(\s*,\s*|\s+)?")
 
+    RE_FLAG = re.compile(r"(?P<number>[01])(\s*,\s*|\s+)?")
+
     PATH_SEGMENT_TYPES = 'AaBbCcHhLlMmQqSsTtVvZz'
 
     _PATH_SEGMENT_VALUES_LENGTH = {
@@ -1485,9 +1487,21 @@ class PathParser(object):
                 args_sequence = list()
                 if len(values) > 0:
                     number_sequence = list()
-                    for it2 in PathParser.RE_NUMBER_SEQUENCE.finditer(values):
+                    pos = 0
+                    while pos < len(values):
+                        it2 = None
+                        if (path_type in 'Aa'
+                                and len(number_sequence) % 7 in (3, 4)):
+                            # need not be separated from the next number
+                            it2 = PathParser.RE_FLAG.match(values, pos)
+                        if it2 is None:
+                            it2 = PathParser.RE_NUMBER_SEQUENCE.search(values,
+                                                                       pos)
+                        if it2 is None:
+                            break
                         number = it2.group('number')
                         number_sequence.append(float(number))
+                        pos = it2.end()
                     argc = PathParser._PATH_SEGMENT_VALUES_LENGTH.get(
                         path_type.upper())
                     args_sequence = zip(*[iter(number_sequence)] * argc)
-- 
2.43.0


From 405339e3c7f42f02c6bbf290b378cbae6a8e3c6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:40:47 +0000
Subject: [PATCH 019/103] fix: serialized path data keeps repeated closepath
 commands

---
 svgpy/path.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 2ddcabb..47c27c5 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1520,7 +1520,7 @@ class PathParser(object):
                     type(path_segment)))
             drawto_command = path_segment.tostring()
             path_type = path_segment.type
-            if last_path_type == path_type:
+            if last_path_type == path_type and path_type not in ('Z', 'z'):
                 drawto_command = drawto_command[1:]
             svg_path.append(drawto_command)
             last_path_type = path_type
-- 
2.43.0


From d4a4520daca336826b7e857e2e8fc2a16b630257 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:47 +0000
Subject: [PATCH 020/103] fix: a smooth curveto reflects the second control
 point of the smooth curveto before it

---
 svgpy/path.py | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 47c27c5..83b6d38 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -840,12 +840,8 @@ class PathSegment(object):
             # smooth cubic bezier curveto: 'S'|'s' (x2,y2 x,y)+
             if path_type == 'C':
                 _, _, x2, y2, x, y = abs_path_segment.values
-            elif (path_type == 'S'
-                  and last_path_type is not None and last_path_type in 'CcSs'):
-                x2, y2, x, y = abs_path_segment.values
             else:
-                x2, y2 = cpx, cpy
-                x, y = abs_path_segment.end
+                x2, y2, x, y = abs_path_segment.values
             next_x1 = 2 * x - x2
             next_y1 = 2 * y - y2
             return next_x1, next_y1
-- 
2.43.0


From 41c521220f1c79f69eb67311339b26b7bc4fb45a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:47 +0000
Subject: [PATCH 021/103] fix: smooth curves reflect only the control point of
 a curve of their kind

---
 svgpy/path.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/svgpy/path.py b/svgpy/path.py
index 83b6d38..ac867e8 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1193,6 +1193,14 @@ class PathParser(object):
         'V': 1,
     }
 
+    @staticmethod
+    def _is_smooth(command, last_command):
+        # whether the shorthand/smooth curve follows a curve of its kind
+        if last_command is None:
+            return False
+        return ((command in 'Ss' and last_command in 'CcSs')
+                or (command in 'Tt' and last_command in 'QqTt'))
+
     @staticmethod
     def from_glyph(face, matrix=None):
         """Creates a list of path segments from specified glyph outlines
@@ -1352,6 +1360,10 @@ class PathParser(object):
                 # quadratic bezier curveto: 'Q'|'q' (x1,y1 x,y)+
                 # vertical lineto: 'V'|'v' y+
                 old_cpx, old_cpy = cpx, cpy
+                if not PathParser._is_smooth(command, last_command):
+                    # no control point to reflect
+                    x1 = 0 if cpx is None else cpx
+                    y1 = 0 if cpy is None else cpy
                 length, (cpx, cpy) = PathSegment.get_length(path_segment,
                                                             cpx, cpy, bearing,
                                                             x1=x1, y1=y1)
@@ -1431,6 +1443,10 @@ class PathParser(object):
                 # smooth quadratic bezier curveto: 'T'|'t' (x,y)+
                 # vertical lineto: 'V'|'v' y+
                 # pathclose: 'Z'|'z'
+                if not PathParser._is_smooth(command, last_command):
+                    # no control point to reflect
+                    x1 = 0 if cpx is None else cpx
+                    y1 = 0 if cpy is None else cpy
                 normalized = PathSegment.normalize(path_segment,
                                                    cpx, cpy, bearing,
                                                    x1=x1, y1=y1)
-- 
2.43.0


From f5d95a2fa8bad724233bdde30d68263f3dc73e25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:47 +0000
Subject: [PATCH 022/103] fix: normalizing an arc whose end points are
 identical is no error

---
 svgpy/path.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/svgpy/path.py b/svgpy/path.py
index ac867e8..d4d5691 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1451,6 +1451,10 @@ class PathParser(object):
                                                    cpx, cpy, bearing,
                                                    x1=x1, y1=y1)
                 normalized_path_data.extend(normalized)
+                if len(normalized) == 0:
+                    # e.g. start point and end point of the arc are identical
+                    last_command = command
+                    continue
 
                 # control point for next shorthand/smooth curve
                 if command in 'CcQqSsTt':
-- 
2.43.0


From 2cad7480e4a792cb8459a85b7f295240087495b5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:42:42 +0000
Subject: [PATCH 023/103] fix: transforming path data keeps the current point
 after H and V

---
 svgpy/path.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index d4d5691..67cfdad 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1137,7 +1137,7 @@ class PathSegment(object):
             return SVGPathSegment('C', x1, y1, x2, y2, x, y)
         elif path_type == 'H':
             # 'H'|'h' x+
-            x, y = abs_path_segment.values[0], cpy
+            x, y = abs_path_segment.values[0], 0 if cpy is None else cpy
             x, y = matrix.transform_point(x, y)
             return SVGPathSegment('L', x, y)
         elif path_type in 'LMT':
@@ -1156,7 +1156,7 @@ class PathSegment(object):
             return SVGPathSegment(path_type, x2, y2, x, y)
         elif path_type == 'V':
             # 'V'|'v' y+
-            x, y = cpx, abs_path_segment.values[0]
+            x, y = 0 if cpx is None else cpx, abs_path_segment.values[0]
             x, y = matrix.transform_point(x, y)
             return SVGPathSegment('L', x, y)
         raise NotImplementedError('Unsupported path type: ' + repr(path_type))
@@ -1578,7 +1578,10 @@ class PathParser(object):
                                                               bearing)
                 else:
                     abs_path_segment = path_segment
-                cpx, cpy = abs_path_segment.end
+                x, y = abs_path_segment.end
+                # no y-coordinate in 'H', no x-coordinate in 'V'
+                cpx = x if x is not None else 0 if cpx is None else cpx
+                cpy = y if y is not None else 0 if cpy is None else cpy
                 if ((command in 'Mm'
                      and (last_command is None or last_command not in 'Mm'))
                         or (start_x is None or start_y is None)):
-- 
2.43.0


From 877404a356d2e405dc70a2a52a421b030b6f6472 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:48:03 +0000
Subject: [PATCH 024/103] fix: transforming path data transforms the radii of
 arcs

---
 svgpy/path.py | 27 ++++++++++++++++++++++++++-
 1 file changed, 26 insertions(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 67cfdad..4e39d71 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -1106,6 +1106,30 @@ class PathSegment(object):
             return SVGPathSegment(path_type)
         raise NotImplementedError('Unsupported path type: ' + repr(path_type))
 
+    @staticmethod
+    def _transform_ellipse(rx, ry, x_axis_rotation, sweep_flag, matrix):
+        linear = np.array([[matrix.a, matrix.c],
+                           [matrix.b, matrix.d]], dtype=float)
+        if np.array_equal(linear, np.identity(2)):
+            return rx, ry, x_axis_rotation, sweep_flag
+        r = math.radians(x_axis_rotation)
+        axes = linear.dot(np.array([[math.cos(r), -math.sin(r)],
+                                    [math.sin(r), math.cos(r)]])
+                          .dot(np.diag([abs(rx), abs(ry)])))
+        directions, radii, _ = np.linalg.svd(axes)
+        if abs(rx) < abs(ry):
+            directions, radii = directions[:, ::-1], radii[::-1]
+        angle = math.degrees(math.atan2(directions[1, 0], directions[0, 0]))
+        if math.isclose(radii[0], radii[1]):
+            angle = x_axis_rotation  # circle
+        elif angle <= -90:
+            angle += 180
+        elif angle > 90:
+            angle -= 180
+        if np.linalg.det(linear) < 0:
+            sweep_flag = 1 if sweep_flag == 0 else 0
+        return radii[0], radii[1], angle, sweep_flag
+
     @staticmethod
     def transform(path_segment, cpx, cpy, bearing, matrix):
         path_type = path_segment.type
@@ -1126,7 +1150,8 @@ class PathSegment(object):
             # 'A'|'a' (rx,ry x-axis-rotation large-arc-flag sweep-flag x,y)+
             rx, ry, x_axis_rotation, fa, fs, x, y = abs_path_segment.values
             x, y = matrix.transform_point(x, y)
-            # x_axis_rotation += matrix.get_angle()
+            rx, ry, x_axis_rotation, fs = PathSegment._transform_ellipse(
+                rx, ry, x_axis_rotation, fs, matrix)
             return SVGPathSegment('A', rx, ry, x_axis_rotation, fa, fs, x, y)
         elif path_type == 'C':
             # 'C'|'c' (x1,y1 x2,y2 x,y)+
-- 
2.43.0


From 7e5244ce637eb7beb3cda5968e68db94fcf3b8a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:59:36 +0000
Subject: [PATCH 025/103] fix: bounding box of a cubic bezier curve that is
 nearly quadratic

---
 svgpy/path.py | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index 4e39d71..a4a2b2b 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -128,11 +128,6 @@ class CubicBezierCurve(object):
 
     def get_roots(self):
         # See http://floris.briolas.nl/floris/2009/10/bounding-box-of-cubic-bezier/
-        def _solve(_a, _b, _c, _s):
-            # {-b + sqrt(b^2 - 4ac) / (2a)} or {-b - sqrt(b^2 - 4ac) / (2a)}
-            s = 1 if _s else -1
-            return (-_b + s * math.sqrt(_b ** 2 - 4 * _a * _c)) / (2 * _a)
-
         roots = list()
         coefficients = self.get_coefficients()
         a = 3 * coefficients[0]
@@ -142,13 +137,12 @@ class CubicBezierCurve(object):
             d = b[i] ** 2 - 4 * a[i] * c[i]
             if d < 0:
                 continue
-            if a[i] == 0 and b[i] != 0:
-                roots.append(-c[i] / b[i])
-            elif d == 0 and a[i] != 0:
-                roots.append(_solve(a[i], b[i], c[i], True))
-            elif a[i] != 0:
-                roots.append(_solve(a[i], b[i], c[i], True))
-                roots.append(_solve(a[i], b[i], c[i], False))
+            # numerically stable, also if 'a' is zero or nearly zero
+            q = -(b[i] + math.copysign(math.sqrt(d), b[i])) / 2
+            if a[i] != 0:
+                roots.append(q / a[i])
+            if q != 0:
+                roots.append(c[i] / q)
         return filter(lambda t: 0 <= t <= 1, roots)
 
     def point(self, t):
-- 
2.43.0


From b4d53ba6a7f10c168ad4f86c2a49aea22c42fd47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:01:41 +0000
Subject: [PATCH 026/103] fix: length of a cubic bezier curve with a cusp is no
 error

---
 svgpy/path.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/path.py b/svgpy/path.py
index a4a2b2b..c263b73 100644
--- a/svgpy/path.py
+++ b/svgpy/path.py
@@ -61,7 +61,8 @@ class CubicBezierCurve(object):
     def _get_length_integrand(t, c0, c1, c2, c3, c4):
         # use Hartmut Henkel method
         # See http://www.circuitwizard.de/metapost/arclength.pdf
-        return math.sqrt(c4 * t ** 4 + c3 * t ** 3 + c2 * t ** 2 + c1 * t + c0)
+        n = c4 * t ** 4 + c3 * t ** 3 + c2 * t ** 2 + c1 * t + c0
+        return math.sqrt(max(n, 0))  # rounding errors
 
     def get_bbox(self, options=None, **extra):
         """Returns the bounding box of the cubic bezier curve.
-- 
2.43.0


From 0baa069c77ce56900ea4136ccbc978e6f5fe6090 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 027/103] fix: arithmetic on a length keeps the element it
 belongs to

---
 svgpy/core.py | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 3adf08b..152f636 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -1051,14 +1051,14 @@ class SVGLength(object):
             self._number, self._unit = SVGLength.parse(value)
 
     def __abs__(self):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         x._number = abs(x._number)
         return x
 
     def __add__(self, other):
         if not isinstance(other, SVGLength):
             return NotImplemented
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         if x._unit is None and other.unit is not None:
             x.convert(other.unit)
         x._number += Decimal(other.value(x._unit))
@@ -1147,7 +1147,7 @@ class SVGLength(object):
         return self._number < o
 
     def __mul__(self, other):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         if isinstance(other, SVGLength):
             if x._unit is None and other.unit is not None:
                 x.convert(other.unit)
@@ -1159,16 +1159,16 @@ class SVGLength(object):
         return x
 
     def __neg__(self):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         x._number = -x._number
         return x
 
     def __pos__(self):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         return x
 
     def __pow__(self, power, modulo=None):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         x._number = pow(x._number, power, modulo)
         return x
 
@@ -1187,14 +1187,14 @@ class SVGLength(object):
     def __sub__(self, other):
         if not isinstance(other, SVGLength):
             return NotImplemented
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         if x._unit is None and other.unit is not None:
             x.convert(other.unit)
         x._number -= Decimal(other.value(x._unit))
         return x
 
     def __truediv__(self, other):
-        x = copy.deepcopy(self)
+        x = copy.copy(self)
         if isinstance(other, SVGLength):
             if x._unit is None and other.unit is not None:
                 x.convert(other.unit)
-- 
2.43.0


From d532c0d2de6905ae9e1949618dd5018de90e075a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 028/103] fix: an empty transform list is no error for boxes
 and path data

---
 svgpy/base.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 33e1b34..a854b84 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -444,7 +444,7 @@ class SVGGraphicsElement(SVGElement):
                     bbox |= child.get_bbox(options, _depth)
             if _depth > 1:
                 transform_list = self.transform  # type: SVGTransformList
-                if transform_list is not None:
+                if transform_list:
                     matrix = transform_list.matrix
                     bbox.transform_self(matrix)
         else:
@@ -503,11 +503,11 @@ class SVGGraphicsElement(SVGElement):
             return path_data
         if self.local_name == 'use':
             transform_list = self.instance_root.transform
-            if transform_list is not None:
+            if transform_list:
                 matrix = transform_list.matrix
                 path_data = PathParser.transform(path_data, matrix)
         transform_list = self.transform  # type: SVGTransformList
-        if transform_list is not None:
+        if transform_list:
             matrix = transform_list.matrix
             path_data = PathParser.transform(path_data, matrix)
         return path_data
-- 
2.43.0


From 9de471a3a81080bfe49bcb64d0eae752a0a1e88a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 029/103] fix: transforms of children and of use elements apply
 once and in order

---
 svgpy/base.py    | 7 +------
 svgpy/element.py | 6 ++----
 2 files changed, 3 insertions(+), 10 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index a854b84..c49d905 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -470,7 +470,7 @@ class SVGGraphicsElement(SVGElement):
         path_data = list()
         for child in iter(self):
             if isinstance(child, SVGGraphicsElement):
-                path_data += child.get_path_data(settings)
+                path_data += child.get_transformed_path_data(settings)
         return path_data
 
     @abstractmethod
@@ -501,11 +501,6 @@ class SVGGraphicsElement(SVGElement):
         path_data = self.get_path_data(settings)
         if len(path_data) == 0:
             return path_data
-        if self.local_name == 'use':
-            transform_list = self.instance_root.transform
-            if transform_list:
-                matrix = transform_list.matrix
-                path_data = PathParser.transform(path_data, matrix)
         transform_list = self.transform  # type: SVGTransformList
         if transform_list:
             matrix = transform_list.matrix
diff --git a/svgpy/element.py b/svgpy/element.py
index ddc2e7a..dc1727d 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -1098,11 +1098,9 @@ class SVGUseElement(SVGGraphicsElement, SVGURIReference):
         root = self.instance_root
         if root is None or not isinstance(root, SVGGraphicsElement):
             return []
-        path_data = root.get_path_data(settings)
+        path_data = root.get_transformed_path_data(settings)
 
-        transform_list = self.transform
-        if transform_list is None:
-            transform_list = SVGTransformList()
+        transform_list = SVGTransformList()
 
         geometry = self.get_computed_geometry()
         x = geometry['x']
-- 
2.43.0


From f2f7fbac69e42203e710c52031a320544addc7be Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 030/103] fix: CTM takes the transforms between nested
 viewports into account

---
 svgpy/base.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index c49d905..373ad76 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -402,22 +402,22 @@ class SVGGraphicsElement(SVGElement):
             scale = farthest.current_scale
             tx, ty = farthest.current_translate
             ctm *= DOMMatrix([scale, 0, 0, scale, tx, ty])
-        for root in roots:
-            vtm = root.get_viewport_transformation_matrix(recursive=False)
-            ctm *= vtm
-
-        transform_list = SVGTransformList()
+        matrices = list()
         element = self
         while element is not None:
+            matrix = DOMMatrix()
             if element.istransformable():
-                transform = element.transform
-                if transform is not None:
-                    transform_list[0:0] = transform
+                transform_list = element.transform
+                if transform_list:
+                    matrix *= transform_list.matrix
             if element.local_name in ('svg', 'symbol'):
+                matrix *= element.get_viewport_transformation_matrix(
+                    recursive=False)
+            matrices.insert(0, matrix)
+            if element == roots[0]:
                 break
             element = element.getparent()
-        if len(transform_list) > 0:
-            matrix = transform_list.matrix
+        for matrix in matrices:
             ctm *= matrix
         return ctm
 
-- 
2.43.0


From 5e0d56362587a7b492df66f635929e62e9a418f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:17 +0000
Subject: [PATCH 031/103] fix: viewport transform of a nested viewport does not
 refer to the window

---
 svgpy/base.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 373ad76..271cc76 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -514,7 +514,7 @@ class SVGGraphicsElement(SVGElement):
             DOMMatrix: The transformation matrix.
         """
         ctm = DOMMatrix()
-        ex, ey, ew, eh = self.get_viewport_size(recursive)
+        ex, ey, ew, eh = self.get_viewport_size()
         view_box = self.get_view_box(recursive)
         if view_box is None:
             if ex is not None and ey is not None:
-- 
2.43.0


From 4d6d971b74183a1b7e780742925b3883f2a6faa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 032/103] fix: a viewBox in error is as if it were not given

---
 svgpy/base.py | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 271cc76..09081bf 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -595,19 +595,21 @@ class SVGFitToViewBox(Element):
         view_box = self.get('viewBox')
         if view_box is None:
             return None
-        vb = Element.RE_DIGIT_SEQUENCE_SPLITTER.split(view_box)
-        return (SVGLength(vb[0],
-                          context=self,
-                          direction=SVGLength.DIRECTION_HORIZONTAL),
-                SVGLength(vb[1],
-                          context=self,
-                          direction=SVGLength.DIRECTION_VERTICAL),
-                SVGLength(vb[2],
-                          context=self,
-                          direction=SVGLength.DIRECTION_HORIZONTAL),
-                SVGLength(vb[3],
-                          context=self,
-                          direction=SVGLength.DIRECTION_VERTICAL))
+        vb = Element.RE_DIGIT_SEQUENCE_SPLITTER.split(view_box.strip())
+        if len(vb) != 4:
+            return None  # in error
+        try:
+            vbx, vby, vbw, vbh = (
+                SVGLength(value, context=self, direction=direction)
+                for value, direction in zip(
+                    vb,
+                    (SVGLength.DIRECTION_HORIZONTAL,
+                     SVGLength.DIRECTION_VERTICAL) * 2))
+        except ValueError:
+            return None  # in error
+        if vbw.value() < 0 or vbh.value() < 0:
+            return None  # in error
+        return vbx, vby, vbw, vbh
 
 
 class SVGGeometryElement(SVGGraphicsElement):
-- 
2.43.0


From fab1ccff3c13a3dbf198f3e6a9ed23885de7473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 033/103] fix: percentages refer to the nearest viewport

---
 svgpy/core.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index 152f636..a213a94 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -1392,7 +1392,7 @@ class SVGLength(object):
                 vw = 100
                 vh = 100
             else:
-                view_box = self._context.get_view_box()
+                view_box = self._context.get_view_box(recursive=False)
                 if view_box is not None:
                     _, _, vbw, vbh, _ = view_box
                     vw = vbw.value()
-- 
2.43.0


From 224acbf2833ae57a0eb2770e103c4e4ae6636d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 034/103] fix: viewport-relative units in the size of a nested
 viewport

---
 svgpy/base.py | 116 +++++++++++++++++---------------------------------
 1 file changed, 39 insertions(+), 77 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 09081bf..4257583 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -172,6 +172,30 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
             parent = parent.getparent()
         return None
 
+    def _get_viewport_length(self, name, auto, sizes, direction):
+        value = self.get(name, 'auto')
+        if value == 'auto':
+            value = auto
+        elif value == 'inherit':
+            value = '100%'
+        vpw, vph = sizes
+        length = SVGLength(value, context=self, direction=direction)
+        unit = length.unit
+        if unit == SVGLength.TYPE_PERCENTAGE:
+            size = (vpw if direction == SVGLength.DIRECTION_HORIZONTAL
+                    else vph)
+        elif unit == SVGLength.TYPE_VW:
+            size = vpw
+        elif unit == SVGLength.TYPE_VH:
+            size = vph
+        elif unit == SVGLength.TYPE_VMAX:
+            size = max(vpw, vph)
+        elif unit == SVGLength.TYPE_VMIN:
+            size = min(vpw, vph)
+        else:
+            return length
+        return length.value(unit) / 100 * size
+
     def get_farthest_svg_element(self):
         """Returns the outermost 'svg' element.
 
@@ -265,84 +289,22 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
         else:
             initial_viewport_width = win.inner_width
             initial_viewport_height = win.inner_height
-        parent_vpw = vpw = SVGLength(initial_viewport_width,
-                                     direction=SVGLength.DIRECTION_HORIZONTAL)
-        parent_vph = vph = SVGLength(initial_viewport_height,
-                                     direction=SVGLength.DIRECTION_VERTICAL)
+        vpw = SVGLength(initial_viewport_width,
+                        direction=SVGLength.DIRECTION_HORIZONTAL)
+        vph = SVGLength(initial_viewport_height,
+                        direction=SVGLength.DIRECTION_VERTICAL)
+        vpx = SVGLength(0)
+        vpy = SVGLength(0)
         for root in roots:
-            _width = root.get('width', 'auto')
-            if _width == 'auto':
-                _width = '100%'
-            if _width == 'inherit':
-                vpw = parent_vpw
-            else:
-                vpw = SVGLength(_width,
-                                context=root,
-                                direction=SVGLength.DIRECTION_HORIZONTAL)
-                unit = vpw.unit
-                if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VW):
-                    vpw = vpw.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vpw
-                elif unit == SVGLength.TYPE_VH:
-                    vpw = vpw.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vph
-                elif unit == SVGLength.TYPE_VMAX:
-                    vpw = max(parent_vpw, parent_vph)
-                elif unit == SVGLength.TYPE_VMIN:
-                    vpw = min(parent_vpw, parent_vph)
-            parent_vpw = vpw
-
-            _height = root.get('height', 'auto')
-            if _height == 'auto':
-                _height = '100%'
-            if _height == 'inherit':
-                vph = parent_vph
-            else:
-                vph = SVGLength(_height,
-                                context=root,
-                                direction=SVGLength.DIRECTION_VERTICAL)
-                unit = vph.unit
-                if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VH):
-                    vph = vph.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vph
-                elif unit == SVGLength.TYPE_VW:
-                    vph = vph.value(SVGLength.TYPE_PERCENTAGE) / 100 \
-                          * parent_vpw
-                elif unit == SVGLength.TYPE_VMAX:
-                    vph = max(parent_vpw, parent_vph)
-                elif unit == SVGLength.TYPE_VMIN:
-                    vph = min(parent_vpw, parent_vph)
-            parent_vph = vph
-        if len(roots) == 0:
-            vpx = SVGLength(0)
-            vpy = SVGLength(0)
-        else:
-            root = roots[-1]
-            vpx = SVGLength(root.get('x', '0'),
-                            context=root,
-                            direction=SVGLength.DIRECTION_HORIZONTAL)
-            unit = vpx.unit
-            if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VW):
-                vpx = vpx.value(SVGLength.TYPE_PERCENTAGE) / 100 * vpw
-            elif unit == SVGLength.TYPE_VH:
-                vpx = vpx.value(SVGLength.TYPE_PERCENTAGE) / 100 * vph
-            elif unit == SVGLength.TYPE_VMAX:
-                vpx = max(vpw, vph)
-            elif unit == SVGLength.TYPE_VMIN:
-                vpx = min(vpw, vph)
-
-            vpy = SVGLength(root.get('y', '0'),
-                            context=root,
-                            direction=SVGLength.DIRECTION_VERTICAL)
-            unit = vpy.unit
-            if unit in (SVGLength.TYPE_PERCENTAGE, SVGLength.TYPE_VH):
-                vpy = vpy.value(SVGLength.TYPE_PERCENTAGE) / 100 * vph
-            elif unit == SVGLength.TYPE_VW:
-                vpy = vpy.value(SVGLength.TYPE_PERCENTAGE) / 100 * vpw
-            elif unit == SVGLength.TYPE_VMAX:
-                vpy = max(vpw, vph)
-            elif unit == SVGLength.TYPE_VMIN:
-                vpy = min(vpw, vph)
+            sizes = vpw, vph
+            vpx = root._get_viewport_length(
+                'x', '0', sizes, SVGLength.DIRECTION_HORIZONTAL)
+            vpy = root._get_viewport_length(
+                'y', '0', sizes, SVGLength.DIRECTION_VERTICAL)
+            vpw = root._get_viewport_length(
+                'width', '100%', sizes, SVGLength.DIRECTION_HORIZONTAL)
+            vph = root._get_viewport_length(
+                'height', '100%', sizes, SVGLength.DIRECTION_VERTICAL)
 
         # TODO: check a range: max-width, max-height, min-width and min-height.
         return vpx, vpy, vpw, vph
-- 
2.43.0


From 650f26256391ccd4258cf60503df3c4b2ee1882e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:25:45 +0000
Subject: [PATCH 035/103] fix: preserveAspectRatio 'xMinYMid' is understood

---
 svgpy/base.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgpy/base.py b/svgpy/base.py
index 4257583..36bdc81 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -670,6 +670,7 @@ class SVGPreserveAspectRatio(object):
     }
 
     _ALIGN_TYPE_MAP = dict((v, k) for k, v in _TYPE_ALIGN_MAP.items())
+    _ALIGN_TYPE_MAP['xMinYMid'] = SVG_PRESERVEASPECTRATIO_XMINYMID
 
     _TYPE_MEETORSLICE_MAP = {
         SVG_MEETORSLICE_MEET: MEETORSLICE_MEET,
-- 
2.43.0


From 12a8abbd6bdf017b6708ee7349afe70b3a08e4cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 036/103] fix: units of a viewport's size do not scale its
 coordinate system

---
 svgpy/base.py | 14 ++++++--------
 1 file changed, 6 insertions(+), 8 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index 36bdc81..d15efd9 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -476,15 +476,13 @@ class SVGGraphicsElement(SVGElement):
             DOMMatrix: The transformation matrix.
         """
         ctm = DOMMatrix()
-        ex, ey, ew, eh = self.get_viewport_size()
+        ex, ey, ew, eh = [x.value() for x in self.get_viewport_size()]
         view_box = self.get_view_box(recursive)
         if view_box is None:
-            if ex is not None and ey is not None:
-                ctm.translate_self(ex.value(), ey.value())
+            ctm.translate_self(ex, ey)
             return ctm
-        if ew is None or eh is None:
-            return ctm
-        vbx, vby, vbw, vbh, par = view_box
+        vbx, vby, vbw, vbh = [x.value() for x in view_box[:4]]
+        par = view_box[4]
         align = par.align
         if align == SVGPreserveAspectRatio.SVG_PRESERVEASPECTRATIO_UNKNOWN:
             align = SVGPreserveAspectRatio.SVG_PRESERVEASPECTRATIO_XMIDYMID
@@ -526,8 +524,8 @@ class SVGGraphicsElement(SVGElement):
                      SVGPreserveAspectRatio.SVG_PRESERVEASPECTRATIO_XMAXYMAX):
             # 'YMax'
             ty += eh - vbh * sy
-        ctm.translate_self(tx.value(), ty.value())
-        ctm.scale_self(sx.value(tx.unit), sy.value(tx.unit))
+        ctm.translate_self(tx, ty)
+        ctm.scale_self(sx, sy)
         return ctm
 
 
-- 
2.43.0


From 1e3d4e72cff3a8239eb8a07226bc4201ed46c4f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:05 +0000
Subject: [PATCH 037/103] fix: a use element in a tree whose root is no svg
 element

---
 svgpy/element.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/element.py b/svgpy/element.py
index dc1727d..5b235de 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -1045,7 +1045,7 @@ class SVGUseElement(SVGGraphicsElement, SVGURIReference):
             # TODO: support external link.
             raise NotImplementedError(href)
         root = self.getroottree().getroot()
-        element = root.get_element_by_id(href[1:])
+        element = get_element_by_id(root, href[1:])
         return element
 
     def get_computed_geometry(self):
-- 
2.43.0


From adcc14494fb60a60c720ce7d1a613d6659e58284 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:40 +0000
Subject: [PATCH 038/103] fix: lengths of different elements are compared and
 added by their sizes

---
 svgpy/core.py | 39 ++++++++++++++++++++++++++-------------
 1 file changed, 26 insertions(+), 13 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index a213a94..d7c07f0 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -1061,13 +1061,13 @@ class SVGLength(object):
         x = copy.copy(self)
         if x._unit is None and other.unit is not None:
             x.convert(other.unit)
-        x._number += Decimal(other.value(x._unit))
+        x._number += x._convert_from(other)
         return x
 
     def __eq__(self, other):
         if not isinstance(other, SVGLength):
             return NotImplemented
-        o = Decimal(other.value(self._unit))
+        o = self._convert_from(other)
         return math.isclose(self._number, o,
                             rel_tol=SVGLength.rel_tol,
                             abs_tol=SVGLength.abs_tol)
@@ -1075,7 +1075,7 @@ class SVGLength(object):
     def __ge__(self, other):
         if not isinstance(other, SVGLength):
             return NotImplemented
-        o = Decimal(other.value(self._unit))
+        o = self._convert_from(other)
         if math.isclose(self._number, o,
                         rel_tol=SVGLength.rel_tol, abs_tol=SVGLength.abs_tol):
             return True
@@ -1084,7 +1084,7 @@ class SVGLength(object):
     def __gt__(self, other):
         if not isinstance(other, SVGLength):
             return NotImplemented
-        o = Decimal(other.value(self._unit))
+        o = self._convert_from(other)
         if math.isclose(self._number, o,
                         rel_tol=SVGLength.rel_tol, abs_tol=SVGLength.abs_tol):
             return False
@@ -1095,14 +1095,14 @@ class SVGLength(object):
             return NotImplemented
         if self._unit is None and other.unit is not None:
             self.convert(other.unit)
-        self._number += Decimal(other.value(self._unit))
+        self._number += self._convert_from(other)
         return self
 
     def __imul__(self, other):
         if isinstance(other, SVGLength):
             if self._unit is None and other.unit is not None:
                 self.convert(other.unit)
-            self._number *= Decimal(other.value(self._unit))
+            self._number *= self._convert_from(other)
         elif isinstance(other, (int, float)):
             self._number *= Decimal(other)
         else:
@@ -1114,14 +1114,14 @@ class SVGLength(object):
             return NotImplemented
         if self._unit is None and other.unit is not None:
             self.convert(other.unit)
-        self._number -= Decimal(other.value(self._unit))
+        self._number -= self._convert_from(other)
         return self
 
     def __itruediv__(self, other):
         if isinstance(other, SVGLength):
             if self._unit is None and other.unit is not None:
                 self.convert(other.unit)
-            self._number /= Decimal(other.value(self._unit))
+            self._number /= self._convert_from(other)
         elif isinstance(other, (int, float)):
             self._number /= Decimal(other)
         else:
@@ -1131,7 +1131,7 @@ class SVGLength(object):
     def __le__(self, other):
         if not isinstance(other, SVGLength):
             return NotImplemented
-        o = Decimal(other.value(self._unit))
+        o = self._convert_from(other)
         if math.isclose(self._number, o,
                         rel_tol=SVGLength.rel_tol, abs_tol=SVGLength.abs_tol):
             return True
@@ -1140,7 +1140,7 @@ class SVGLength(object):
     def __lt__(self, other):
         if not isinstance(other, SVGLength):
             return NotImplemented
-        o = Decimal(other.value(self._unit))
+        o = self._convert_from(other)
         if math.isclose(self._number, o,
                         rel_tol=SVGLength.rel_tol, abs_tol=SVGLength.abs_tol):
             return False
@@ -1151,7 +1151,7 @@ class SVGLength(object):
         if isinstance(other, SVGLength):
             if x._unit is None and other.unit is not None:
                 x.convert(other.unit)
-            x._number *= Decimal(other.value(x._unit))
+            x._number *= x._convert_from(other)
         elif isinstance(other, (int, float)):
             x._number *= Decimal(other)
         else:
@@ -1190,7 +1190,7 @@ class SVGLength(object):
         x = copy.copy(self)
         if x._unit is None and other.unit is not None:
             x.convert(other.unit)
-        x._number -= Decimal(other.value(x._unit))
+        x._number -= x._convert_from(other)
         return x
 
     def __truediv__(self, other):
@@ -1198,7 +1198,7 @@ class SVGLength(object):
         if isinstance(other, SVGLength):
             if x._unit is None and other.unit is not None:
                 x.convert(other.unit)
-            x._number /= Decimal(other.value(x._unit))
+            x._number /= x._convert_from(other)
         elif isinstance(other, (int, float)):
             x._number /= Decimal(other)
         else:
@@ -1214,6 +1214,19 @@ class SVGLength(object):
         """str: The unit string."""
         return self._unit if self._unit != SVGLength.TYPE_NUMBER else None
 
+    def _convert_from(self, other):
+        """Returns the number of another length in the unit of this length."""
+        resolutions = (SVGLength.TYPE_DPI, SVGLength.TYPE_DPCM,
+                       SVGLength.TYPE_DPPX)
+        if ((self._context is other._context
+             and self._direction == other._direction)
+                or self._unit in resolutions or other._unit in resolutions):
+            return Decimal(other.value(self._unit))
+        # units may differ in size
+        x = copy.copy(self)
+        x.new_value(other.value(), None)
+        return Decimal(x.value(self._unit))
+
     @staticmethod
     def _normalize(number, unit):
         if unit is not None:
-- 
2.43.0


From 532e9988cfc93c6e2dffbd9a2b08228f8dff3c61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 039/103] fix: 'normal' in the font shorthand was taken for a
 part of font-style

---
 svgpy/css/shorthands.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/shorthands.py b/svgpy/css/shorthands.py
index 3886b35..5e2e3a7 100644
--- a/svgpy/css/shorthands.py
+++ b/svgpy/css/shorthands.py
@@ -200,7 +200,8 @@ class ShorthandProperty(ABC):
                 break
 
         if (property_name in components_map
-                and len(components_map[property_name]) == 0):
+                and all(x.type == 'whitespace'
+                        for x in components_map[property_name])):
             del components_map[property_name]
         return components_map, css_wide_keywords
 
@@ -255,6 +256,10 @@ class ShorthandProperty(ABC):
 class FontShorthand(ShorthandProperty):
 
     def set_css_declaration(self, component_list, priority):
+        # 'normal' is the initial value of every longhand that accepts it
+        component_list = [x for x in component_list
+                          if not (x.type == 'ident'
+                                  and x.lower_value == 'normal')]
         components_map, _ = ShorthandProperty._parse_css_declaration(
             'font',
             component_list)
-- 
2.43.0


From 9e17b0909de792af1cdf45fe5f01d7c696a973fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 040/103] fix: the font shorthand took the number after the
 solidus for the font weight

---
 svgpy/css/shorthands.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/shorthands.py b/svgpy/css/shorthands.py
index 5e2e3a7..1850361 100644
--- a/svgpy/css/shorthands.py
+++ b/svgpy/css/shorthands.py
@@ -171,7 +171,8 @@ class ShorthandProperty(ABC):
             elif component == '/':
                 if (property_name not in _with_solidus_properties
                         and '/' not in desc.syntax):
-                    if target is not None and len(target) > 0:
+                    if ((target is not None and len(target) > 0)
+                            or property_name in shorthand_property_map['font']):
                         break
                     continue
                 elif found_solidus:
-- 
2.43.0


From 5f788406f6e817ec2925364f42fa07441ebbaea5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 041/103] fix: keywords of white-space, font-synthesis and
 font-variant were case-sensitive

---
 svgpy/css/shorthands.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/svgpy/css/shorthands.py b/svgpy/css/shorthands.py
index 1850361..6ed20db 100644
--- a/svgpy/css/shorthands.py
+++ b/svgpy/css/shorthands.py
@@ -352,7 +352,7 @@ class FontSynthesisShorthand(ShorthandProperty):
 
     def set_css_declaration(self, component_list, priority):
         components_map = OrderedDict()
-        values = [tinycss2.serialize([x]) for x in component_list
+        values = [tinycss2.serialize([x]).lower() for x in component_list
                   if x.type != 'whitespace']
         font_synthesis_weight = None
         font_synthesis_style = None
@@ -415,7 +415,7 @@ class FontSynthesisShorthand(ShorthandProperty):
 class FontVariantShorthand(ShorthandProperty):
 
     def set_css_declaration(self, component_list, priority):
-        value = tinycss2.serialize(component_list).strip()
+        value = tinycss2.serialize(component_list).strip().lower()
         if value in ('normal', 'none'):
             components_map = OrderedDict()
             for longhand_name in shorthand_property_map['font-variant']:
@@ -813,7 +813,7 @@ class TextDecorationShorthand(ShorthandProperty):
 class WhiteSpaceShorthand(ShorthandProperty):
 
     def set_css_declaration(self, component_list, priority):
-        value = tinycss2.serialize(component_list).strip()
+        value = tinycss2.serialize(component_list).strip().lower()
         if value == 'normal':
             text_space_collapse = 'collapse'
             text_wrap = 'wrap'
-- 
2.43.0


From 6c62c5411b8295a5264ec07366d529b3d5e0bcff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 042/103] fix: font-variant dropped the values of a longhand
 that are not side by side

---
 svgpy/css/shorthands.py | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/shorthands.py b/svgpy/css/shorthands.py
index 6ed20db..81d50ff 100644
--- a/svgpy/css/shorthands.py
+++ b/svgpy/css/shorthands.py
@@ -146,11 +146,14 @@ class ShorthandProperty(ABC):
     def _parse_component_list(property_name, component_list, components_map,
                               css_wide_keywords):
         desc = css_property_descriptor_map[property_name]
+        font_variant_longhands = shorthand_property_map['font-variant']
         found_solidus = False
         target = None
         for component in list(component_list):
             if component.type == 'whitespace':
-                if target is not None:
+                if target is not None and not (
+                        property_name in font_variant_longhands
+                        and target[-1].type == 'whitespace'):
                     target.append(component)
                     component_list.remove(component)
                 continue
@@ -191,12 +194,19 @@ class ShorthandProperty(ABC):
             supported, syntax = desc.support(component)
             if supported:
                 target = components_map.setdefault(property_name, list())
+                if (property_name in font_variant_longhands
+                        and len(target) > 0
+                        and target[-1].type != 'whitespace'):
+                    target.extend(create_component_list(' '))
                 target.append(component)
                 component_list.remove(component)
                 if (property_name == 'mask-border-slice'
                         and syntax == PropertySyntax.CUSTOM_IDENT):
                     # <mask-border-slice> = <number-percentage>{1,4} fill?
                     break
+            elif property_name in font_variant_longhands:
+                # the values of 'font-variant' may be in any order
+                continue
             elif found_solidus or (target is not None and len(target) > 0):
                 break
 
-- 
2.43.0


From d4576dd78d1570b424761dbad63f59044bda68d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 043/103] fix: an unsupported value of the overflow shorthand
 raised KeyError

---
 svgpy/css/shorthands.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/css/shorthands.py b/svgpy/css/shorthands.py
index 81d50ff..a08afc6 100644
--- a/svgpy/css/shorthands.py
+++ b/svgpy/css/shorthands.py
@@ -744,7 +744,7 @@ class OverflowShorthand(ShorthandProperty):
             for property_name in shorthand_property_map['overflow']:
                 components_map[property_name] = initial_value.copy()
         else:
-            temp = [x for x in components_map['overflow-x']
+            temp = [x for x in components_map.get('overflow-x', ())
                     if x.type != 'whitespace']
             if not (1 <= len(temp) <= 2):
                 return False
-- 
2.43.0


From 00d02ce35209d0822c9b6881409ae3abc9d50216 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:53:37 +0000
Subject: [PATCH 044/103] fix: the value of the mask shorthand gave mask-origin
 and mask-clip the same box

---
 svgpy/css/shorthands.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/svgpy/css/shorthands.py b/svgpy/css/shorthands.py
index a08afc6..32daa68 100644
--- a/svgpy/css/shorthands.py
+++ b/svgpy/css/shorthands.py
@@ -707,6 +707,18 @@ class MaskShorthand(ShorthandProperty):
             # <position> [ / <bg-size> ]?
             return ''
 
+        if (mask_clip != 'no-clip'
+                and 'initial' in (mask_origin, mask_clip)
+                and mask_origin != mask_clip):
+            # a single <geometry-box> sets both of them
+            property_map = property_map.copy()
+            for property_name in ('mask-origin', 'mask-clip'):
+                if property_map[property_name] == 'initial':
+                    desc = css_property_descriptor_map[property_name]
+                    property_map[property_name] = desc.initial_value
+            mask_origin = property_map['mask-origin']
+            mask_clip = property_map['mask-clip']
+
         values = list()
         for property_name in shorthand_property_map['mask']:
             value = property_map[property_name]
-- 
2.43.0


From 64fdcd7bf78a7ef24d706475334e0812afad2c58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:57:44 +0000
Subject: [PATCH 045/103] fix: a style attribute lost declarations whose value
 has a colon or a semicolon

---
 svgpy/utils.py | 41 ++++++++++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 5 deletions(-)

diff --git a/svgpy/utils.py b/svgpy/utils.py
index 9633205..d27989d 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -30,6 +30,14 @@ _ASCII_WHITESPACE = '\t\n\f\r\x20'
 _RE_QUALIFIED_NAME = re.compile(
     r'{(?P<namespace>[^}]*)}(?P<local_name>.*)')
 
+_CSS_STRING = r'"(?:\\.|[^"\\])*"?|\'(?:\\.|[^\'\\])*\'?'
+
+_RE_CSS_COMMENT = re.compile(
+    r'(?P<string>' + _CSS_STRING + r')|/\*.*?(?:\*/|$)',
+    re.DOTALL)
+
+_RE_CSS_DECLARATION_TOKEN = re.compile(_CSS_STRING + r'|\\.|.', re.DOTALL)
+
 _namespace_map = {
     'html': 'http://www.w3.org/1999/xhtml',
     'xlink': 'http://www.w3.org/1999/xlink',
@@ -248,11 +256,34 @@ def style_to_dict(text):
     """
     if text is None or len(text.strip()) == 0:
         return OrderedDict()
-    items = [x.split(':') for x in iter(text.strip().split(';'))]
-    items = [x for x in items if len(x) == 2]
-    return OrderedDict(
-        (key.strip(), value.strip()) for key, value in iter(items)
-    )
+    style = OrderedDict()
+    for item in _split_declarations(text):
+        key, colon, value = item.partition(':')
+        if len(colon) == 0:
+            continue
+        key = key.strip()
+        if not key.startswith('--'):
+            key = key.lower()
+        style.pop(key, None)
+        style[key] = value.strip()
+    return style
+
+
+def _split_declarations(text):
+    # split at the semicolons outside strings and blocks
+    text = _RE_CSS_COMMENT.sub(lambda m: m.group('string') or ' ', text)
+    declarations = ['']
+    depth = 0
+    for token in _RE_CSS_DECLARATION_TOKEN.findall(text):
+        if token == ';' and depth == 0:
+            declarations.append('')
+            continue
+        elif token in '([{':
+            depth += 1
+        elif token in ')]}':
+            depth = max(depth - 1, 0)
+        declarations[-1] += token
+    return declarations
 
 
 class CaseInsensitiveMapping(MutableMapping):
-- 
2.43.0


From 0907d3389a2a90ecf64a7f522ff24585681a9ae5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:03 +0000
Subject: [PATCH 046/103] fix: the declarations of a style attribute did not
 follow the attribute

---
 svgpy/css/__init__.py | 54 +++++++++++++++----------------------------
 1 file changed, 18 insertions(+), 36 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index ecd44f2..c9e2bf7 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -39,6 +39,8 @@ from ..utils import CaseInsensitiveMapping, dict_to_style, get_content_type, \
 
 _RE_COLLAPSIBLE_WHITESPACE = re.compile(r'(\x20){2,}')
 
+_RE_CSS_IMPORTANT = re.compile(r'\s*!\s*important\s*$', re.IGNORECASE)
+
 
 def normalize_text(text):
     out_text = text.strip().replace(
@@ -1309,6 +1311,7 @@ class CSSStyleDeclaration(MutableMapping):
         self._property_map = OrderedDict()
         self._owner_node = owner_node
         self._inline_style = inline_style
+        self._style_text = ''  # the 'style' attribute of the declarations
         self._readonly = False
         if rule is not None:
             self._css_text = normalize_text(tinycss2.serialize(rule.content))
@@ -1376,44 +1379,21 @@ class CSSStyleDeclaration(MutableMapping):
         # 'style' attribute => CSS declarations
         attr = self._owner_node.attributes.get_named_item_ns(None, 'style')
         style = '' if attr is None else attr.value
-        property_map = style_to_dict(style)
         declarations = self._property_map
-        for property_name in declarations:
-            if Longhand.is_longhand(property_name):
-                shorthand_names = Longhand.shorthands(property_name)
-                for shorthand_name in shorthand_names:
-                    if shorthand_name in property_map:
-                        shorthand = Shorthand(declarations)
-                        result = shorthand.get_property_value(shorthand_name)
-                        if result == property_map[shorthand_name]:
-                            del property_map[shorthand_name]
-                            break
-            elif (property_name in property_map
-                  and declarations[property_name][0]
-                  == property_map[property_name]):
-                del property_map[property_name]
-
-        for property_name, value in property_map.items():
-            needs_update = False
+        if style == self._style_text:
+            return declarations
+        self._style_text = style
+        declarations.clear()
+        for property_name, value in style_to_dict(style).items():
+            matched = _RE_CSS_IMPORTANT.search(value)
             priority = ''
-            if Shorthand.is_shorthand(property_name):
-                shorthand = Shorthand(declarations)
-                result = shorthand.get_property_value(property_name)
-                if result != value:
-                    needs_update = True
-                    priority = shorthand.get_property_priority(property_name)
-            else:
-                if property_name not in declarations:
-                    needs_update = True
-                elif value != declarations[property_name][0]:
-                    needs_update = True
-                    priority = declarations[property_name][1]
-            if needs_update:
-                self._set_property_internal(declarations,
-                                            property_name,
-                                            value,
-                                            priority)
-
+            if matched is not None:
+                value = value[:matched.start()]
+                priority = 'important'
+            self._set_property_internal(declarations,
+                                        property_name,
+                                        value,
+                                        priority)
         return declarations
 
     def _parse_content(self, content):
@@ -1469,6 +1449,8 @@ class CSSStyleDeclaration(MutableMapping):
             return
         style = _StyleAttribute(declarations, self._owner_node)
         style.update(property_name, value)
+        attr = self._owner_node.attributes.get_named_item_ns(None, 'style')
+        self._style_text = '' if attr is None else attr.value
 
     def get_property_priority(self, property_name):
         """Returns the important flag of the first exact match of name in the
-- 
2.43.0


From b0e174cced4c30195091211ede6b6ebad51cce04 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:16:08 +0000
Subject: [PATCH 047/103] fix: the text of a style attribute did not follow its
 declarations

---
 svgpy/css/__init__.py | 192 ++++++++----------------------------------
 1 file changed, 36 insertions(+), 156 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index c9e2bf7..6f44a39 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -54,165 +54,45 @@ class _StyleAttribute(object):
     def __init__(self, declarations, owner_node):
         self._declarations = declarations  # type: OrderedDict
         self._owner_node = owner_node
-        attr = owner_node.attributes.get_named_item_ns(None, 'style')
-        style = '' if attr is None else attr.value
-        self._style_map = style_to_dict(style)
-
-    def _remove(self, property_name, force=False):
-        style_map = self._style_map
-        updated = False
-        if property_name in style_map:
-            updated = True
-            del style_map[property_name]
+        self._style_map = {}
 
-        if Shorthand.is_shorthand(property_name):
-            # shorthand
-            # remove shorthand's sub-properties
-            longhand_names = Shorthand.longhands(property_name)
-            for longhand_name in longhand_names:
-                if longhand_name in style_map:
-                    updated = True
-                    del style_map[longhand_name]
-
-        if force:
-            return updated
-
-        if (Shorthand.is_shorthand(property_name)
-                or Longhand.is_longhand(property_name)):
-            # shorthand or shorthand's sub-property
-            # try to set the shorthand
-            declarations = self._declarations
-            shorthand_names = Longhand.shorthands(property_name)
-            for shorthand_name in shorthand_names:
-                _updated = self._set_shorthand(shorthand_name)
-                if _updated:
-                    updated = True
-                else:
-                    if shorthand_name in style_map:
-                        updated = True
-                        del style_map[shorthand_name]
-                    longhand_names = Shorthand.longhands(shorthand_name)
-                    for longhand_name in longhand_names:
-                        if longhand_name in declarations:
-                            updated = True
-                            longhand_value = declarations[longhand_name][0]
-                            style_map[longhand_name] = longhand_value
-
-        return updated
-
-    def _set(self, property_name, value, append=True, restore=False):
-        style_map = self._style_map
-        if not append and property_name not in style_map:
-            return False
-        if restore:
-            if property_name not in self._declarations:
-                return False
-            value = self._declarations[property_name][0]
-        updated = False
-        if Longhand.is_longhand(property_name):
-            # longhand => shorthand
-            # e.g.: 'font-variant-caps: small-caps'
-            # => 'font: small-caps' or 'font-variant: small-caps'
-            shorthand_names = Longhand.shorthands(property_name)
-            for shorthand_name in shorthand_names:
-                _updated = self._set_shorthand(shorthand_name)
-                if _updated:
-                    updated = True
-                    for sub_shorthand_name in (set(shorthand_names)
-                                               - {shorthand_name}):
-                        if sub_shorthand_name in style_map:
-                            del style_map[sub_shorthand_name]
-                    break
-                else:
-                    # shorthand => longhand
-                    updated |= self._set_longhand_from_shorthand(
-                        shorthand_name)
-        elif Shorthand.is_shorthand(property_name):
-            # shorthand
-            updated = self._set_shorthand(property_name)
-            if not updated:
-                # shorthand => longhand
-                updated = self._set_longhand_from_shorthand(property_name)
-
-        if not updated and len(value) > 0:
-            updated = True
-            style_map[property_name] = value
-        return updated
-
-    def _set_longhand_from_shorthand(self, shorthand_name):
-        style_map = self._style_map
-        declarations = self._declarations
-        updated = False
-        if shorthand_name in style_map:
-            updated = True
-            del style_map[shorthand_name]
-        longhand_names = Shorthand.longhands(shorthand_name)
-        for longhand_name in longhand_names:
-            if longhand_name in declarations:
-                updated = True
-                longhand_value = declarations[longhand_name][0]
-                style_map[longhand_name] = longhand_value
-            elif Shorthand.is_shorthand(longhand_name):
-                _updated = self._set_shorthand(longhand_name)
-                if _updated:
-                    updated = True
-                    continue
-                updated |= self._set_longhand_from_shorthand(longhand_name)
-
-        return updated
-
-    def _set_shorthand(self, property_name):
-        style_map = self._style_map
-        updated = False
+    def _set_shorthand(self, shorthand_name):
         shorthand = Shorthand(self._declarations)
-        result = shorthand.get_property_value(property_name)
-        if len(result) > 0:
-            updated = True
-            style_map[property_name] = result
-            longhand_names = Shorthand.longhands(property_name)
-            for longhand_name in longhand_names:
-                if longhand_name in style_map:
-                    del style_map[longhand_name]
-
-        return updated
-
-    def _update_style(self):
-        attributes = self._owner_node.attributes
-        if len(self._style_map) == 0:
-            if 'style' in attributes:
-                del attributes['style']
+        value = shorthand.get_property_value(shorthand_name)
+        if len(value) > 0:
+            self._style_map[shorthand_name] = value
             return
-        style = dict_to_style(self._style_map)
-        attributes['style'] = style
+        # shorthand => longhand
+        for longhand_name in Shorthand.longhands(shorthand_name):
+            if Shorthand.is_shorthand(longhand_name):
+                self._set_shorthand(longhand_name)
+            elif longhand_name in self._declarations:
+                self._style_map[longhand_name] = self._declarations[
+                    longhand_name][0]
+
+    def update(self):
+        style_map = self._style_map
+        style_map.clear()
+        for property_name, (value, _) in self._declarations.items():
+            if Longhand.is_longhand(property_name):
+                self._set_shorthand(Longhand.shorthands(property_name)[0])
+            else:
+                style_map[property_name] = value
 
-    def update(self, property_name, value):
-        updated = False
-        if len(value) == 0:
-            updated = self._remove(property_name)
-            if property_name == 'font':
-                for sub_property_name in font_sub_property_list:
-                    updated |= self._set(sub_property_name, '', restore=True)
-            elif property_name in font_sub_property_list:
-                updated |= self._set_shorthand('font')
-            elif property_name == 'mask-border':
-                updated |= self._set_shorthand('mask')
-        else:
-            if property_name in font_sub_property_list and value != 'initial':
-                updated |= self._set_longhand_from_shorthand('font')
-            elif property_name == 'mask':
-                updated |= self._remove('mask-border', force=True)
-            elif property_name == 'mask-border' and value != 'initial':
-                updated |= self._set_longhand_from_shorthand('mask')
-            updated |= self._set(property_name, value)
-            if updated and 'font' in self._style_map:
-                for sub_property_name in font_sub_property_list:
-                    # updated |= self._set(sub_property_name,
-                    #                      'initial',
-                    #                      append=False)
-                    updated |= self._remove(sub_property_name, force=True)
-
-        if updated:
-            self._update_style()
+        # remove the sub-properties that are reset by the shorthand
+        reset_names = ()
+        if 'font' in style_map:
+            reset_names += font_sub_property_list
+        if 'mask' in style_map:
+            reset_names += 'mask-border', *Shorthand.longhands('mask-border')
+        for property_name in reset_names:
+            style_map.pop(property_name, None)
+
+        attributes = self._owner_node.attributes
+        if len(style_map) > 0:
+            attributes['style'] = dict_to_style(style_map)
+        elif 'style' in attributes:
+            del attributes['style']
 
 
 class CSS(object):
@@ -1448,7 +1328,7 @@ class CSSStyleDeclaration(MutableMapping):
         if self._owner_node is None:
             return
         style = _StyleAttribute(declarations, self._owner_node)
-        style.update(property_name, value)
+        style.update()
         attr = self._owner_node.attributes.get_named_item_ns(None, 'style')
         self._style_text = '' if attr is None else attr.value
 
-- 
2.43.0


From c6811d0b4c410775c0d7bb8a2c7b5c66537d30f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 048/103] fix: media queries were compared with regard to their
 case

---
 svgpy/css/__init__.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 6f44a39..7b5470c 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -696,7 +696,10 @@ class MediaList(MutableSequence):
         return repr(self._items)
 
     def __setitem__(self, index, item):
-        self._items[index] = item
+        if isinstance(index, slice):
+            self._items[index] = [x.strip().lower() for x in item]
+        else:
+            self._items[index] = item.strip().lower()
 
     @property
     def length(self):
@@ -708,7 +711,7 @@ class MediaList(MutableSequence):
         """str: A serialization of the collection of media queries."""
         # FIXME: implement serialize-a-media-query-list.
         # https://drafts.csswg.org/cssom/#serialize-a-media-query-list
-        return ', '.join(self._items).lower()
+        return ', '.join(self._items)
 
     @media_text.setter
     def media_text(self, value):
@@ -726,7 +729,7 @@ class MediaList(MutableSequence):
 
     @staticmethod
     def _parse_media_query_list(medium):
-        m = [x.strip() for x in medium.split(',')]
+        m = [x.strip().lower() for x in medium.split(',')]
         return m
 
     def append(self, medium):
@@ -770,7 +773,7 @@ class MediaList(MutableSequence):
             index (int): An index position of the collection of media queries.
             medium (str): The media query to be added.
         """
-        self[index:index] = [medium.strip()]
+        self[index:index] = [medium]
 
     def item(self, index):
         """Returns a serialization of the media query in the collection of
-- 
2.43.0


From 41d1c41f5e5bfe710ff9a1eb2102e8055f9d6b34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 049/103] fix: @namespace ignored a namespace given as a string

---
 svgpy/css/__init__.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 7b5470c..6bd584b 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1159,8 +1159,13 @@ class CSSNamespaceRule(CSSRule):
 
     def _parse_prelude(self, prelude):
         for token in prelude:
-            if token.type == 'url':
+            if token.type in ('string', 'url'):
                 self._namespace_uri = token.value
+            elif token.type == 'function' and token.lower_name == 'url':
+                # url("namespace")
+                for argument in token.arguments:
+                    if argument.type == 'string':
+                        self._namespace_uri = argument.value
             elif token.type == 'ident':
                 self._prefix = token.value
 
-- 
2.43.0


From c6880a0d5a0c8abde81f978326c82cc5b89c1807 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:36:54 +0000
Subject: [PATCH 050/103] fix: the last feature value was lost without a
 semicolon after it

---
 svgpy/css/__init__.py | 38 +++++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 15 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 6bd584b..fe86dc4 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -926,6 +926,24 @@ class CSSFontFeatureValuesRule(CSSRule):
             }
         })
 
+    def _add_feature_values(self, feature_type, name, feature_values):
+        if (name is None
+                or feature_values is None
+                or len(feature_values) == 0):
+            return
+        if feature_type == 'annotation':
+            self._annotation[name] = feature_values
+        elif feature_type == 'character-variant':
+            self._character_variant[name] = feature_values
+        elif feature_type == 'ornaments':
+            self._ornaments[name] = feature_values
+        elif feature_type == 'styleset':
+            self._styleset[name] = feature_values
+        elif feature_type == 'stylistic':
+            self._stylistic[name] = feature_values
+        elif feature_type == 'swash':
+            self._swash[name] = feature_values
+
     def _parse_content(self, content):
         nodes = tinycss2.parse_rule_list(content,
                                          skip_comments=True,
@@ -946,23 +964,13 @@ class CSSFontFeatureValuesRule(CSSRule):
                         if feature_values is not None and token.int_value >= 0:
                             feature_values.append(token.int_value)
                     elif token.type == 'literal' and token.value == ';':
-                        if (name is not None
-                                and feature_values is not None
-                                and len(feature_values) > 0):
-                            if feature_type == 'annotation':
-                                self._annotation[name] = feature_values
-                            elif feature_type == 'character-variant':
-                                self._character_variant[name] = feature_values
-                            elif feature_type == 'ornaments':
-                                self._ornaments[name] = feature_values
-                            elif feature_type == 'styleset':
-                                self._styleset[name] = feature_values
-                            elif feature_type == 'stylistic':
-                                self._stylistic[name] = feature_values
-                            elif feature_type == 'swash':
-                                self._swash[name] = feature_values
+                        self._add_feature_values(feature_type,
+                                                 name,
+                                                 feature_values)
                         name = None
                         feature_values = None
+                # the last one may go without a semicolon
+                self._add_feature_values(feature_type, name, feature_values)
 
     @property
     def font_family(self):
-- 
2.43.0


From d7195ae2931427d4ff55291ed88f1ed66e5260c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 051/103] fix: media features were misread when spaced
 differently

---
 svgpy/css/mediaquery.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/svgpy/css/mediaquery.py b/svgpy/css/mediaquery.py
index 0ca8242..094ef2a 100644
--- a/svgpy/css/mediaquery.py
+++ b/svgpy/css/mediaquery.py
@@ -39,7 +39,7 @@ _RE_MEDIA_QUERY = re.compile(
 
 _RE_MEDIA_IN_PARENS = re.compile(
     r"(?P<mf_plain>\(\s*\S+\s*:\s*\S+\s*\))"
-    r"|(?P<mf_boolean>\(\s*\S+\s*\))"
+    r"|(?P<mf_boolean>\(\s*[^\s<>=]+\s*\))"
     r"|(?P<mf_range>\(\s*[^<> ]+\s*[<>]=?\s*[^<>) ]+\s*"
     r"([<>]=?\s*[^<>) ]+\s*)?\))"
     r"|(?P<media_not>not\s+\(.+\))"
@@ -58,6 +58,9 @@ _RE_MF_RANGE = re.compile(
 
 _RE_WHITESPACE = re.compile(r'\s+', re.MULTILINE)
 
+# e.g.: '(aspect-ratio: 16 / 9)'
+_RE_SOLIDUS = re.compile(r'\s*/\s*')
+
 _RE_NUMBER = re.compile(
     r'(^[+-]?(\d*\.\d+|\d+\.?\d*)([eE][+-]?\d+)?)',
     re.MULTILINE)
@@ -84,7 +87,8 @@ def parse(query):
     node_list = list()
     media_query_list = query.strip().lower().split(',')
     for media_query in media_query_list:
-        media_query = media_query.strip()
+        media_query = ' '.join(media_query.split())
+        media_query = _RE_SOLIDUS.sub('/', media_query)
         if len(media_query) == 0:
             continue
         node = dict()
@@ -414,7 +418,7 @@ def _parse_mf_boolean(query, parent):
         values = parent.setdefault(MQ_VALUES, [])
     node = dict({
         MQ_EXPR: MQ_EXPR_NAME,
-        MQ_ID: query.strip('()'),
+        MQ_ID: query.strip('() '),
     })
     values.append(node)
     return node
-- 
2.43.0


From d15b299826c5e4f9862257b70c9b738672ec414a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 052/103] fix: aspect ratios in media queries were compared
 wrongly

---
 svgpy/css/mediaquery.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/svgpy/css/mediaquery.py b/svgpy/css/mediaquery.py
index 094ef2a..d560f4d 100644
--- a/svgpy/css/mediaquery.py
+++ b/svgpy/css/mediaquery.py
@@ -209,20 +209,18 @@ def _eval_expr_compare(node, conditions, compare_func, user_data=None):
             if not result:
                 return False, None
         elif ((left_expr == MQ_EXPR_NAME or right_expr == MQ_EXPR_NAME)
-              and name == 'aspect-ratio'):
+              and name in ('aspect-ratio', 'device-aspect-ratio')):
             # value: <ratio>
             # e.g.: '(aspect-ratio: 16/9)' -> '(aspect-ratio == 16/9)'
             left_ratio = Fraction(left_value)
             right_ratio = Fraction(right_value)
-            if op[-1] == '=' and left_ratio == right_ratio:
-                logger.debug('feature \'{}\': {} {} {}: result={}'.format(
-                    name, repr(left_ratio), op, repr(right_ratio), True))
-            else:
-                cmp = left_ratio > right_ratio
-                logger.debug('feature \'{}\': {} {} {}: result={}'.format(
-                    name, repr(left_ratio), op, repr(right_ratio), cmp))
-                if (op[0] == '>' and not cmp) or (op[0] == '<' and cmp):
-                    return False, None
+            cmp = left_ratio - right_ratio
+            logger.debug('feature \'{}\': {} {} {}: result={}'.format(
+                name, repr(left_ratio), op, repr(right_ratio), cmp))
+            if not ((cmp == 0 and op[-1] == '=')
+                    or (cmp > 0 and op[0] == '>')
+                    or (cmp < 0 and op[0] == '<')):
+                return False, None
         else:
             # value: <length> | <resolution> | <mq-boolean> | <integer>
             # e.g.: '(1 < color-index < 255)' ->
-- 
2.43.0


From 18e6b7586c9e80fa0bb172b892579ae4f700ae73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:09 +0000
Subject: [PATCH 053/103] fix: media features in a range with = were not
 understood

---
 svgpy/css/mediaquery.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/svgpy/css/mediaquery.py b/svgpy/css/mediaquery.py
index d560f4d..b5f9f6d 100644
--- a/svgpy/css/mediaquery.py
+++ b/svgpy/css/mediaquery.py
@@ -40,8 +40,8 @@ _RE_MEDIA_QUERY = re.compile(
 _RE_MEDIA_IN_PARENS = re.compile(
     r"(?P<mf_plain>\(\s*\S+\s*:\s*\S+\s*\))"
     r"|(?P<mf_boolean>\(\s*[^\s<>=]+\s*\))"
-    r"|(?P<mf_range>\(\s*[^<> ]+\s*[<>]=?\s*[^<>) ]+\s*"
-    r"([<>]=?\s*[^<>) ]+\s*)?\))"
+    r"|(?P<mf_range>\(\s*[^<>= ]+\s*([<>]=?|=)\s*[^<>=) ]+\s*"
+    r"([<>]=?\s*[^<>=) ]+\s*)?\))"
     r"|(?P<media_not>not\s+\(.+\))"
     r"|(?P<media_in_parens>\(.+\))"
     r"|(\s+(?P<op>(and|or))\s+)",
@@ -52,8 +52,9 @@ _RE_MF_PLAIN = re.compile(
     re.MULTILINE)
 
 _RE_MF_RANGE = re.compile(
-    r"(\(\s*(?P<left>[^<> ]+)\s*(?P<op>[<>]=?)\s*(?P<right>[^<>) ]+)\s*"
-    r"((?P<op2>[<>]=?)\s*(?P<right2>[^<>) ]+)\s*)?\))",
+    r"(\(\s*(?P<left>[^<>= ]+)\s*(?P<op>[<>]=?|=)\s*"
+    r"(?P<right>[^<>=) ]+)\s*"
+    r"((?P<op2>[<>]=?)\s*(?P<right2>[^<>=) ]+)\s*)?\))",
     re.MULTILINE)
 
 _RE_WHITESPACE = re.compile(r'\s+', re.MULTILINE)
-- 
2.43.0


From 2d2351aaea4fae0da68c77560265c01a6e7073bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:45:20 +0000
Subject: [PATCH 054/103] fix: an invalid aspect ratio in a media query raised
 an exception

---
 svgpy/css/mediaquery.py | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/svgpy/css/mediaquery.py b/svgpy/css/mediaquery.py
index b5f9f6d..687e720 100644
--- a/svgpy/css/mediaquery.py
+++ b/svgpy/css/mediaquery.py
@@ -213,8 +213,13 @@ def _eval_expr_compare(node, conditions, compare_func, user_data=None):
               and name in ('aspect-ratio', 'device-aspect-ratio')):
             # value: <ratio>
             # e.g.: '(aspect-ratio: 16/9)' -> '(aspect-ratio == 16/9)'
-            left_ratio = Fraction(left_value)
-            right_ratio = Fraction(right_value)
+            try:
+                left_ratio = Fraction(left_value)
+                right_ratio = Fraction(right_value)
+            except (ValueError, ZeroDivisionError) as exp:
+                logger.debug('feature \'{}\': {} {} {}: exception={}'.format(
+                    name, repr(left_value), op, repr(right_value), repr(exp)))
+                return False, None
             cmp = left_ratio - right_ratio
             logger.debug('feature \'{}\': {} {} {}: result={}'.format(
                 name, repr(left_ratio), op, repr(right_ratio), cmp))
-- 
2.43.0


From 71313b24d8351170ce6ce08ebfa9cc74d4f539f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 055/103] fix: resolving a relative URL changed the base URL
 object

---
 svgpy/url.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index e4443bc..416a6d8 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -234,7 +234,7 @@ class URL(object):
             else:
                 parsed_base = URL(base)
         elif isinstance(base, URL):
-            parsed_base = base
+            parsed_base = URL(base.href)
         else:
             raise TypeError('Expected str or URL, got ' + repr(type(base)))
         if (parsed_base is not None
-- 
2.43.0


From b77fe37bf6bf6b7d90bee32acecc37406094684f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 056/103] fix: relative URLs of a query, a fragment, a host or
 an absolute path were resolved wrongly

---
 svgpy/url.py | 39 ++++++++++++++++++++-------------------
 1 file changed, 20 insertions(+), 19 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 416a6d8..60fd4f7 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -240,30 +240,31 @@ class URL(object):
         if (parsed_base is not None
                 and parsed_base.protocol in ['about:', 'blob:', 'data:']):
             parsed_base = None
-        done = False
-        try:
+        pr = urlsplit(url)
+        if len(pr.scheme) > 0 or parsed_base is None:
             self._parse_url(url)
-            done = True
-        except ValueError:
-            if parsed_base is None:
-                raise
-        if not done:
-            if os.path.isabs(url):
+        elif len(pr.netloc) > 0:
+            self._parse_url(parsed_base.protocol + url)
+        else:
+            if parsed_base.protocol != 'file:' or url[:1] in ('?', '#'):
+                if len(pr.path) > 0:
+                    parsed_base.pathname = os.path.join(
+                        os.path.dirname(parsed_base.pathname),
+                        pr.path.replace('\\', '/'))
+                if len(pr.path) > 0 or len(pr.query) > 0:
+                    parsed_base.search = pr.query
+                parsed_base.hash = pr.fragment
+            elif os.path.isabs(url):
                 parsed_base.pathname = url
                 parsed_base.search = ''
                 parsed_base.hash = ''
             else:
-                if parsed_base.protocol != 'file:':
-                    pathname = os.path.join(
-                        os.path.dirname(parsed_base.pathname),
-                        url)
-                else:  # 'file:'
-                    parent_path = parsed_base.pathname
-                    if sys.platform.startswith('win'):
-                        parent_path = parent_path.lstrip('/')
-                    if not os.path.isdir(parent_path):
-                        parent_path = os.path.dirname(parent_path)
-                    pathname = os.path.join(parent_path, url)
+                parent_path = parsed_base.pathname
+                if sys.platform.startswith('win'):
+                    parent_path = parent_path.lstrip('/')
+                if not os.path.isdir(parent_path):
+                    parent_path = os.path.dirname(parent_path)
+                pathname = os.path.join(parent_path, url)
                 pathname = pathname.replace('\\', '/')
                 pr = urlsplit(pathname)
                 parsed_base.pathname = pr.path
-- 
2.43.0


From 08c9131420362b8b178a86ea2dda399478d5c6ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 057/103] fix: a path that ends with a dot segment lost the
 solidus at its end

---
 svgpy/url.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 60fd4f7..cb061ce 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -390,7 +390,8 @@ class URL(object):
             # U+002F (/), U+003A (:), U+003B (;), U+003D (=), U+0040 (@),
             # U+005B ([), U+005C (\), U+005D (]), U+005F (_), U+007E (~)
             pathname = quote(pathname, safe='&/:;=@[]_~')
-            sep = len(pathname) >= 2 and pathname.endswith('/')
+            sep = (len(pathname) >= 2
+                   and pathname.split('/')[-1] in ('', '.', '..'))
             pathname = os.path.normpath(pathname).replace('\\', '/')
             if sep and not pathname.endswith('/'):
                 pathname += '/'
-- 
2.43.0


From 71b172974202f166ed1e3abb9f43c20e38c681cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:48 +0000
Subject: [PATCH 058/103] fix: the host of a URL lost its port for good where
 it was the default of an earlier scheme

---
 svgpy/url.py | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index cb061ce..0ff83d5 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -221,7 +221,6 @@ class URL(object):
         self._username = ''
         self._password = ''
         self._hostname = ''
-        self._host = ''
         self._port = ''
         self._pathname = ''
         self._search_params = URLSearchParams()
@@ -279,7 +278,7 @@ class URL(object):
                      'protocol': self._protocol,
                      'username': self._username,
                      'password': self._password,
-                     'host': self._host,
+                     'host': self.host,
                      'hostname': self._hostname,
                      'port': self._port,
                      'pathname': self._pathname,
@@ -306,10 +305,12 @@ class URL(object):
         for the scheme).
         """
         port = self.port
-        if len(port) > 0:
-            if _SPECIAL_SCHEMES_PORT_NUMBERS.get(self.protocol, '') == port:
-                self._host = self._hostname
-        return self._host
+        if (len(port) == 0
+                or len(self._hostname) == 0
+                or _SPECIAL_SCHEMES_PORT_NUMBERS.get(
+                    self.protocol, '') == port):
+            return self._hostname
+        return self._hostname + ':' + port
 
     @host.setter
     def host(self, host):
@@ -409,17 +410,10 @@ class URL(object):
     def port(self, port):
         if len(port) == 0:
             self._port = ''
-            self._host = self._hostname
             return
         elif not port.isdigit() or int(port) > 2 ** 16 - 1:
             raise ValueError('Invalid port: ' + repr(port))
         self._port = port
-        self._host = self._hostname
-        if (len(port) > 0
-                and len(self._host) > 0
-                and _SPECIAL_SCHEMES_PORT_NUMBERS.get(
-                    self._protocol, '') != port):
-            self._host += ':' + port
 
     @property
     def protocol(self):
@@ -492,7 +486,7 @@ class URL(object):
 
     def _parse_host(self, host, hostname_state=False):
         if len(host) == 0:
-            self._host = self._hostname = ''
+            self._hostname = ''
             if not hostname_state:
                 self._port = ''
             return
@@ -508,19 +502,19 @@ class URL(object):
                 if ']' not in host:
                     raise ValueError('Invalid hostname: ' + repr(host))
                 end = host.rfind(']') + 1
-                self._host = self._hostname = host[:end]
+                self._hostname = host[:end]
             else:
                 # IPv6 address
                 end = -1
-                self._host = self._hostname = '[{}]'.format(host)
+                self._hostname = '[{}]'.format(host)
         elif colons == 1:
             # ascii-domain with port or IPv4 address with port
             end = host.rfind(':')
-            self._host = self._hostname = host[:end]
+            self._hostname = host[:end]
         else:
             # ascii-domain or IPv4 address
             end = -1
-            self._host = self._hostname = host
+            self._hostname = host
         if not hostname_state:
             # host state
             if end < 0:
@@ -529,9 +523,7 @@ class URL(object):
                 self.port = host[end + 1:]
         else:
             # hostname state
-            if end < 0:
-                self.port = self._port
-            else:
+            if end >= 0:
                 port = host[end + 1:]
                 if len(port) > 0:
                     self.port = port
@@ -544,7 +536,7 @@ class URL(object):
             raise ValueError('Invalid URL: ' + repr(url))
         self.protocol = pr.scheme
         if len(pr.netloc) == 0:
-            self._host = self._hostname = self._port = ''
+            self._hostname = self._port = ''
         else:
             self._port = str(pr.port) if pr.port is not None else ''
             self.hostname = pr.hostname
-- 
2.43.0


From e3bc17cebe709b18016ed7e655a1b5a432807ea0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 059/103] fix: an invalid URL, host or port was refused only
 after parts of it had been taken over

---
 svgpy/url.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 0ff83d5..7438847 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -332,6 +332,7 @@ class URL(object):
 
     @href.setter
     def href(self, url):
+        URL(url)  # raises ValueError before anything is changed
         self._parse_url(url)
 
     @property
@@ -502,19 +503,19 @@ class URL(object):
                 if ']' not in host:
                     raise ValueError('Invalid hostname: ' + repr(host))
                 end = host.rfind(']') + 1
-                self._hostname = host[:end]
+                hostname = host[:end]
             else:
                 # IPv6 address
                 end = -1
-                self._hostname = '[{}]'.format(host)
+                hostname = '[{}]'.format(host)
         elif colons == 1:
             # ascii-domain with port or IPv4 address with port
             end = host.rfind(':')
-            self._hostname = host[:end]
+            hostname = host[:end]
         else:
             # ascii-domain or IPv4 address
             end = -1
-            self._hostname = host
+            hostname = host
         if not hostname_state:
             # host state
             if end < 0:
@@ -527,6 +528,7 @@ class URL(object):
                 port = host[end + 1:]
                 if len(port) > 0:
                     self.port = port
+        self._hostname = hostname
 
     def _parse_url(self, url):
         pr = urlsplit(url)
-- 
2.43.0


From 9b718f9ccd8bbe2a1afefda3e4d583710f4b61f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:02:13 +0000
Subject: [PATCH 060/103] fix: search parameters were not read back as they had
 been written

---
 svgpy/url.py | 25 +++++++++++++++----------
 1 file changed, 15 insertions(+), 10 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 7438847..d445eb5 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -17,7 +17,8 @@ import os
 import re
 import sys
 from collections.abc import MutableMapping
-from urllib.parse import quote, quote_plus, unquote, urlencode, urlsplit
+from urllib.parse import quote, quote_plus, unquote, unquote_plus, \
+    urlencode, urlsplit
 
 _SPECIAL_SCHEMES_PORT_NUMBERS = {
     'ftp:': '21',
@@ -33,6 +34,9 @@ _RE_NUMERIC_CHARACTER_REFERENCE = re.compile(
     r'(?P<prefix>&#)([0-9]{4}|x[0-9a-f]{4})(?P<suffix>;)',
     re.IGNORECASE)
 
+# U+0025 (%) of a percent-encoded byte
+_RE_PERCENT_ENCODED = re.compile(r'%(?=[0-9a-f]{2})', re.IGNORECASE)
+
 
 def quote_numeric_character_references(query, quote_via=None, safe=''):
     def _quote(_string):
@@ -441,17 +445,20 @@ class URL(object):
             return ''
         queries = list()
         # unsafe:
-        # U+0020 (SP), U+0023 (#), U+0026 (&), and U+0027 (')
-        safe = '!$%()*+,-./:;=?@[\\]^_`{|}~'
+        # U+0020 (SP), U+0023 (#), U+0026 (&), U+0027 ('), U+002B (+),
+        # U+003D (=) of a key, and U+0025 (%) before two hexadecimal digits
+        safe = '!$%()*,-./:;?@[\\]^_`{|}~'
         # FIXME: implement URLSearchParams.sort().
         for key in sorted(self._search_params):
             value = self._search_params[key]
+            key = _RE_PERCENT_ENCODED.sub('%25', key)
             key = quote_numeric_character_references(key,
                                                      quote_via=quote_plus,
                                                      safe=safe)
+            value = _RE_PERCENT_ENCODED.sub('%25', value)
             value = quote_numeric_character_references(value,
                                                        quote_via=quote_plus,
-                                                       safe=safe)
+                                                       safe=safe + '=')
             query = '{}={}'.format(key, value)
             queries.append(query)
         return '?' + '&'.join(queries)
@@ -464,12 +471,10 @@ class URL(object):
             return
         pairs = query.split('&')
         for pair in pairs:
-            kv = pair.split('=')
-            if len(kv) < 2:
-                kv.append('')
-            key = kv[0].replace('+', ' ')
-            value = kv[1].replace('+', ' ')
-            self._search_params[key] = value
+            if len(pair) == 0:
+                continue
+            key, _, value = pair.partition('=')
+            self._search_params[unquote_plus(key)] = unquote_plus(value)
 
     @property
     def search_params(self):
-- 
2.43.0


From 4fdc866db7b94732b78afc216be515c9d23f7e85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 061/103] fix: a fragment with an encoded percent sign changed
 when parsed again

---
 svgpy/url.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index d445eb5..c48d46f 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -300,7 +300,8 @@ class URL(object):
         fragment = fragment.lstrip('#')
         # unsafe:
         # U+0020 (SP), U+0022 ("), U+003C (<), U+003E (>), and U+0060 (`)
-        self._hash = quote(unquote(fragment),
+        fragment = _RE_PERCENT_ENCODED.sub('%25', unquote(fragment))
+        self._hash = quote(fragment,
                            safe='!#$%&\'()*+,-./:;=?@[\\]^_{|}~')
 
     @property
-- 
2.43.0


From 9d8fd147fa9c18bf0617c723df21ac4f45287ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:01 +0000
Subject: [PATCH 062/103] fix: an encoded solidus in a path was taken for a
 separator

---
 svgpy/url.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index c48d46f..cb5bfc2 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -37,6 +37,9 @@ _RE_NUMERIC_CHARACTER_REFERENCE = re.compile(
 # U+0025 (%) of a percent-encoded byte
 _RE_PERCENT_ENCODED = re.compile(r'%(?=[0-9a-f]{2})', re.IGNORECASE)
 
+# U+002F (/) or U+005C (\\), percent-encoded
+_RE_ENCODED_SOLIDUS = re.compile(r'(%2f|%5c)', re.IGNORECASE)
+
 
 def quote_numeric_character_references(query, quote_via=None, safe=''):
     def _quote(_string):
@@ -392,11 +395,15 @@ class URL(object):
                 and '\\' in pathname):
             raise ValueError('Invalid pathname: ' + repr(pathname))
         if self._protocol not in ['blob:', 'data:']:
-            pathname = unquote(pathname).replace('\\', '/')
+            # an encoded U+002F (/) or U+005C (\\) separates nothing
+            parts = _RE_ENCODED_SOLIDUS.split(pathname)
             # U+0026 (&)
             # U+002F (/), U+003A (:), U+003B (;), U+003D (=), U+0040 (@),
             # U+005B ([), U+005C (\), U+005D (]), U+005F (_), U+007E (~)
-            pathname = quote(pathname, safe='&/:;=@[]_~')
+            pathname = ''.join(
+                x.upper() if i % 2 == 1 else quote(
+                    unquote(x).replace('\\', '/'), safe='&/:;=@[]_~')
+                for i, x in enumerate(parts))
             sep = (len(pathname) >= 2
                    and pathname.split('/')[-1] in ('', '.', '..'))
             pathname = os.path.normpath(pathname).replace('\\', '/')
-- 
2.43.0


From b6a7c7ca54b90e34aca5635ab75d405ad220cd8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:06:17 +0000
Subject: [PATCH 063/103] fix: a path given without a solidus kept the dot
 segments in front

---
 svgpy/url.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/svgpy/url.py b/svgpy/url.py
index cb5bfc2..6054e73 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -406,6 +406,8 @@ class URL(object):
                 for i, x in enumerate(parts))
             sep = (len(pathname) >= 2
                    and pathname.split('/')[-1] in ('', '.', '..'))
+            if self._protocol != 'about:' and not pathname.startswith('/'):
+                pathname = '/' + pathname
             pathname = os.path.normpath(pathname).replace('\\', '/')
             if sep and not pathname.endswith('/'):
                 pathname += '/'
-- 
2.43.0


From b0b3b892fce7919f6c708e40de620b680ef24416 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:43 +0000
Subject: [PATCH 064/103] fix: URL: an empty reference against a file URL keeps
 its path and query

'' was joined with the directory of the base path, so that it named the
directory and not the base document, unlike with every other scheme.
---
 svgpy/url.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index 6054e73..df03f8a 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -252,7 +252,7 @@ class URL(object):
         elif len(pr.netloc) > 0:
             self._parse_url(parsed_base.protocol + url)
         else:
-            if parsed_base.protocol != 'file:' or url[:1] in ('?', '#'):
+            if parsed_base.protocol != 'file:' or url[:1] in ('', '?', '#'):
                 if len(pr.path) > 0:
                     parsed_base.pathname = os.path.join(
                         os.path.dirname(parsed_base.pathname),
-- 
2.43.0


From 205ea675d973510ed01f8310e52d2849c3d694af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:05 +0000
Subject: [PATCH 065/103] fix: style rules whose selector has a combinator
 never applied

The selector was evaluated from the element itself, so that its ancestors and
siblings were out of sight.
---
 svgpy/style.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/style.py b/svgpy/style.py
index ff8998c..ce32e04 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -283,12 +283,13 @@ def get_css_style(element, css_rules):
     uri = namespaces.pop(None, None)
     if uri is not None:
         namespaces['svg'] = uri
+    root = element.getroottree().getroot()
     for css_rule in css_rules:
         if css_rule.type == CSSRule.STYLE_RULE:
             try:
                 selector = cssselect.CSSSelector(css_rule.selector_text,
                                                  namespaces=namespaces)
-                matched = selector(element)
+                matched = selector(root)
                 if len(matched) > 0 and element in matched:
                     for key, (value, priority) in css_rule.style.items():
                         style[key] = value
-- 
2.43.0


From 0be25a06a740b74cde54723e801f86cc38a3a7e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:40 +0000
Subject: [PATCH 066/103] fix: type selectors of style rules did not match in
 documents with a default namespace

A type selector without a prefix names elements of any namespace unless the
style sheet declares a default one; namespaces declared in one style sheet are
not those of the next; a rule with an undeclared prefix is ignored.
---
 svgpy/style.py | 65 +++++++++++++++++++++++++++++++++++++++++++++-----
 1 file changed, 59 insertions(+), 6 deletions(-)

diff --git a/svgpy/style.py b/svgpy/style.py
index ce32e04..b813b86 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -15,6 +15,7 @@
 
 from logging import getLogger
 
+from cssselect.xpath import XPathExpr
 from lxml import cssselect, etree
 
 from .css import CSSParser, CSSRule, CSSStyleSheet
@@ -83,6 +84,36 @@ svg|svg, svg {
 logger = getLogger(__name__)
 
 
+class _SelectorXPathExpr(XPathExpr):
+    def add_name_test(self):
+        if self.element != '*':
+            self.add_condition('self::' + self.element)
+            self.element = '*'
+
+
+class _SelectorTranslator(cssselect.LxmlTranslator):
+    xpathexpr_cls = _SelectorXPathExpr
+
+    def __init__(self, default_namespace):
+        super().__init__()
+        self._default_namespace = default_namespace
+
+    def xpath_element(self, selector):
+        # A type selector without a namespace prefix represents elements of
+        # the default namespace, or of any namespace if none is declared.
+        # See https://drafts.csswg.org/selectors-3/#typenmsp
+        xpath = super().xpath_element(selector)
+        namespace = self._default_namespace
+        if selector.element and not selector.namespace and namespace != '':
+            condition = 'local-name() = ' + self.xpath_literal(
+                selector.element)
+            if namespace is not None:
+                condition += ' and namespace-uri() = ' + self.xpath_literal(
+                    namespace)
+            xpath = self.xpathexpr_cls(element='*[{}]'.format(condition))
+        return xpath
+
+
 def flatten_css_rules(element, css_rules):
     doc = element.owner_document
     win = doc.default_view if doc is not None else None
@@ -279,16 +310,31 @@ def get_css_style_sheets_from_xml_stylesheet(root):
 def get_css_style(element, css_rules):
     style = dict()
     style_important = dict()
-    namespaces = element.nsmap.copy()
-    uri = namespaces.pop(None, None)
-    if uri is not None:
-        namespaces['svg'] = uri
     root = element.getroottree().getroot()
-    for css_rule in css_rules:
+    style_sheet = None
+    namespaces = dict()
+    user_agent = False
+    default_namespace = None
+    for order, css_rule in enumerate(css_rules):
+        if order == 0 or css_rule.parent_style_sheet is not style_sheet:
+            # namespaces are declared for a style sheet
+            style_sheet = css_rule.parent_style_sheet
+            namespaces = element.nsmap.copy()
+            uri = namespaces.pop(None, None)
+            if uri is not None:
+                namespaces['svg'] = uri
+            user_agent = (style_sheet is not None
+                          and style_sheet.owner_node is None
+                          and style_sheet.href is None)
+            # the user-agent style sheet names the elements of SVG and those
+            # without a namespace one by one
+            default_namespace = '' if user_agent else None
         if css_rule.type == CSSRule.STYLE_RULE:
             try:
+                translator = _SelectorTranslator(default_namespace)
                 selector = cssselect.CSSSelector(css_rule.selector_text,
-                                                 namespaces=namespaces)
+                                                 namespaces=namespaces,
+                                                 translator=translator)
                 matched = selector(root)
                 if len(matched) > 0 and element in matched:
                     for key, (value, priority) in css_rule.style.items():
@@ -303,6 +349,11 @@ def get_css_style(element, css_rules):
                 logger.info('SelectorSyntaxError: {}: \'{}\''.format(
                     exp,
                     css_rule.selector_text))
+            except etree.XPathEvalError as exp:
+                # undeclared namespace prefix
+                logger.info('XPathEvalError: {}: \'{}\''.format(
+                    exp,
+                    css_rule.selector_text))
         elif css_rule.type == CSSRule.FONT_FACE_RULE:
             # TODO: support CSS @font-face at-rule.
             pass
@@ -314,5 +365,7 @@ def get_css_style(element, css_rules):
                 prefix = css_rule.prefix
                 if len(prefix) == 0:
                     prefix = 'svg'
+                    if not user_agent:
+                        default_namespace = css_rule.namespace_uri
                 namespaces[prefix] = css_rule.namespace_uri
     return style, style_important
-- 
2.43.0


From a77567d5379795572f45033a29a61797a44df9ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 067/103] fix: declared values did not cascade by origin,
 specificity and importance

Presentation attributes won over style rules, the last rule over more specific
ones, important rules over important inline declarations; '!important' stayed
in the value of inline declarations.
---
 svgpy/dom.py   |  11 ++---
 svgpy/style.py | 127 +++++++++++++++++++++++++++++++++++++++----------
 2 files changed, 105 insertions(+), 33 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index f7ea768..75ccaab 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -23,11 +23,11 @@ from .core import CSSUtils, Font, SVGLength
 from .css import CSSStyleDeclaration
 from .exception import HierarchyRequestError, InUseAttributeError, \
     InvalidCharacterError, NotFoundError
-from .style import get_css_rules, get_css_style, \
+from .style import get_cascaded_style, get_css_rules, \
     get_css_style_sheet_from_element
 from .utils import QualifiedName, get_elements_by_class_name, \
     get_elements_by_tag_name, get_elements_by_tag_name_ns, \
-    is_ascii_whitespace, style_to_dict
+    is_ascii_whitespace
 
 
 _RE_DOM_STRING_MAP_INVALID_SYNTAX = re.compile(r'-[a-z]')
@@ -1999,12 +1999,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         css_rules = get_css_rules(self)
         element = self
         while element is not None:
-            css_style, css_style_important = get_css_style(element, css_rules)
-            css_style.update(element.attrib)
-            _style = css_style.pop('style', None)
-            if _style is not None:
-                css_style.update(style_to_dict(_style))
-            css_style.update(css_style_important)
+            css_style = get_cascaded_style(element, css_rules)
             for key in iter(list(inherited_props.keys())):
                 value = css_style.get(key)
                 if value is not None and value not in ['inherit']:
diff --git a/svgpy/style.py b/svgpy/style.py
index b813b86..992f6bf 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -13,8 +13,10 @@
 # limitations under the License.
 
 
+from functools import lru_cache
 from logging import getLogger
 
+from cssselect.parser import parse
 from cssselect.xpath import XPathExpr
 from lxml import cssselect, etree
 
@@ -81,6 +83,13 @@ svg|svg, svg {
 # }
 # '''
 
+# precedence of the declarations, from the lowest to the highest
+_ORIGIN_USER_AGENT = 0
+_ORIGIN_AUTHOR = 1
+_ORIGIN_AUTHOR_IMPORTANT = 2
+_ORIGIN_USER_AGENT_IMPORTANT = 3
+_SPECIFICITY_INLINE = (float('inf'),)
+
 logger = getLogger(__name__)
 
 
@@ -307,9 +316,54 @@ def get_css_style_sheets_from_xml_stylesheet(root):
     return style_sheets
 
 
+def get_cascaded_style(element, css_rules):
+    """Returns the declared values that win the cascade.
+
+    Arguments:
+        element (Element): The element the values are declared for.
+        css_rules (list[CSSRule]): The rules of the user-agent style sheet and
+            of the author style sheets.
+    Returns:
+        dict: The values of the properties.
+    """
+    # See https://drafts.csswg.org/css-cascade-4/#cascading
+    declared = list(_iter_declarations(element, css_rules))
+
+    # presentation attributes
+    for key, value in element.attrib.items():
+        if key != 'style':
+            declared.append(((_ORIGIN_AUTHOR, (), -1), key, value))
+
+    # inline style
+    inline_style = getattr(element, 'style', None)
+    if inline_style is not None:
+        for key, (value, priority) in inline_style.items():
+            origin = _ORIGIN_AUTHOR_IMPORTANT if priority == 'important' \
+                else _ORIGIN_AUTHOR
+            declared.append(
+                ((origin, _SPECIFICITY_INLINE, 0), key, value))
+
+    declared.sort(key=lambda it: it[0])
+    style = dict()
+    for _, key, value in declared:
+        style[key] = value
+    return style
+
+
 def get_css_style(element, css_rules):
     style = dict()
     style_important = dict()
+    declared = sorted(_iter_declarations(element, css_rules),
+                      key=lambda it: it[0])
+    for (origin, _, _), key, value in declared:
+        style[key] = value
+        if origin in (_ORIGIN_AUTHOR_IMPORTANT,
+                      _ORIGIN_USER_AGENT_IMPORTANT):
+            style_important[key] = value
+    return style, style_important
+
+
+def _iter_declarations(element, css_rules):
     root = element.getroottree().getroot()
     style_sheet = None
     namespaces = dict()
@@ -330,30 +384,19 @@ def get_css_style(element, css_rules):
             # without a namespace one by one
             default_namespace = '' if user_agent else None
         if css_rule.type == CSSRule.STYLE_RULE:
-            try:
-                translator = _SelectorTranslator(default_namespace)
-                selector = cssselect.CSSSelector(css_rule.selector_text,
-                                                 namespaces=namespaces,
-                                                 translator=translator)
-                matched = selector(root)
-                if len(matched) > 0 and element in matched:
-                    for key, (value, priority) in css_rule.style.items():
-                        style[key] = value
-                        if priority == 'important':
-                            style_important[key] = value
-            except cssselect.ExpressionError as exp:
-                logger.info('ExpressionError: {}: \'{}\''.format(
-                    exp,
-                    css_rule.selector_text))
-            except cssselect.SelectorSyntaxError as exp:
-                logger.info('SelectorSyntaxError: {}: \'{}\''.format(
-                    exp,
-                    css_rule.selector_text))
-            except etree.XPathEvalError as exp:
-                # undeclared namespace prefix
-                logger.info('XPathEvalError: {}: \'{}\''.format(
-                    exp,
-                    css_rule.selector_text))
+            specificity = _match_selectors(element, root,
+                                           css_rule.selector_text, namespaces,
+                                           default_namespace)
+            if specificity is None:
+                continue
+            for key, (value, priority) in css_rule.style.items():
+                if priority == 'important':
+                    origin = _ORIGIN_USER_AGENT_IMPORTANT if user_agent \
+                        else _ORIGIN_AUTHOR_IMPORTANT
+                else:
+                    origin = _ORIGIN_USER_AGENT if user_agent \
+                        else _ORIGIN_AUTHOR
+                yield (origin, specificity, order), key, value
         elif css_rule.type == CSSRule.FONT_FACE_RULE:
             # TODO: support CSS @font-face at-rule.
             pass
@@ -368,4 +411,38 @@ def get_css_style(element, css_rules):
                     if not user_agent:
                         default_namespace = css_rule.namespace_uri
                 namespaces[prefix] = css_rule.namespace_uri
-    return style, style_important
+
+
+def _match_selectors(element, root, selector_text, namespaces,
+                     default_namespace):
+    # returns the specificity of the most specific selector that matches
+    specificity = None
+    try:
+        for path, value in _translate_selectors(selector_text,
+                                                default_namespace):
+            if specificity is not None and value <= specificity:
+                continue
+            matched = etree.XPath(path, namespaces=namespaces)(root)
+            if any(it is element for it in matched):
+                specificity = value
+    except cssselect.ExpressionError as exp:
+        logger.info('ExpressionError: {}: \'{}\''.format(
+            exp,
+            selector_text))
+    except cssselect.SelectorSyntaxError as exp:
+        logger.info('SelectorSyntaxError: {}: \'{}\''.format(
+            exp,
+            selector_text))
+    except etree.XPathEvalError as exp:
+        logger.info('XPathEvalError: {}: \'{}\''.format(
+            exp,
+            selector_text))
+        return None  # undeclared namespace prefix
+    return specificity
+
+
+@lru_cache(maxsize=1024)
+def _translate_selectors(selector_text, default_namespace):
+    translator = _SelectorTranslator(default_namespace)
+    return [(translator.selector_to_xpath(selector), selector.specificity())
+            for selector in parse(selector_text)]
-- 
2.43.0


From dc468469e43422b8cfb47def8991cb6b431b61f3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:55 +0000
Subject: [PATCH 068/103] fix: KeyError if an element has both the font and the
 font-family attribute

---
 svgpy/dom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 75ccaab..fcf3b45 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -2010,7 +2010,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                     elif key == 'font-family':
                         # 'font-family' property
                         style[key] = CSSUtils.parse_font_family(value)
-                        del inherited_props[key]
+                        inherited_props.pop(key, None)
                     elif key == 'font-variant':
                         # 'font-variant' shorthand property
                         style[key] = value
-- 
2.43.0


From 26b308866bbd03a9a7c1b38a10bfcd6b12fef951 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:28 +0000
Subject: [PATCH 069/103] fix: non-inherited properties ignored the style
 attribute and the style rules

They were taken from the presentation attributes only; 'inherit' was not
understood.
---
 svgpy/dom.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index fcf3b45..bc31bf8 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1923,9 +1923,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
              'unicode-bidi': 'normal',
              'vector-effect': 'none',
              }
-        for key in iter(non_inherited_props):
-            style.setdefault(key,
-                             self.get(key, non_inherited_props[key]))
+        style.update(non_inherited_props)
 
         inherited_props = \
             {'clip-rule': 'nonzero',
@@ -2000,6 +1998,13 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         element = self
         while element is not None:
             css_style = get_cascaded_style(element, css_rules)
+            for key in list(non_inherited_props):
+                value = css_style.get(key)
+                if value == 'inherit':
+                    continue
+                elif value is not None:
+                    style[key] = value
+                del non_inherited_props[key]
             for key in iter(list(inherited_props.keys())):
                 value = css_style.get(key)
                 if value is not None and value not in ['inherit']:
-- 
2.43.0


From d9ef8b27cf355360ffd7971f1a491ba6ff5cbfad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:44 +0000
Subject: [PATCH 070/103] fix: shorthand declarations of style rules did not
 reach white-space, text-decoration and other properties used as a whole

The font shorthand of attributes and of the style attribute is expanded where
it is declared, so that earlier longhands do not win over it; 'initial' and
'unset' are understood.
---
 svgpy/dom.py   | 81 +++++++++++---------------------------------------
 svgpy/style.py | 43 +++++++++++++++++++++------
 2 files changed, 52 insertions(+), 72 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index bc31bf8..2c6a2f9 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1865,40 +1865,6 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         return style
 
     def get_inherited_style(self):
-        def _update_font_prop(_value, _style, _inherited_style):
-            _other = CSSUtils.parse_font(_value)
-            for _key in _other:
-                if _key not in _style:
-                    _style[_key] = _other[_key]
-                    if _key == 'font-variant':
-                        _update_font_variant_prop(_other[_key],
-                                                  _style,
-                                                  _inherited_style)
-            _inherited_style.pop('font-style', None)
-            _inherited_style.pop('font-variant', None)
-            _inherited_style.pop('font-weight', None)
-            _inherited_style.pop('font-stretch', None)
-            _inherited_style.pop('font-size', None)
-            _inherited_style.pop('line-height', None)
-            _inherited_style.pop('font-size-adjust', None)
-            _inherited_style.pop('font-kerning', None)
-            _inherited_style.pop('font-language-override', None)
-            _inherited_style.pop('font-family', None)
-            _inherited_style.pop('font', None)
-
-        def _update_font_variant_prop(_value, _style, _inherited_style):
-            _other = CSSUtils.parse_font_variant(_value)
-            for _key in _other:
-                if _key not in _style:
-                    _style[_key] = _other[_key]
-            _inherited_style.pop('font-variant-alternates', None)
-            _inherited_style.pop('font-variant-caps', None)
-            _inherited_style.pop('font-variant-east-asian', None)
-            _inherited_style.pop('font-variant-ligatures', None)
-            _inherited_style.pop('font-variant-numeric', None)
-            _inherited_style.pop('font-variant-position', None)
-            _inherited_style.pop('font-variant', None)
-
         # See https://svgwg.org/svg2-draft/propidx.html
         style = dict()
         non_inherited_props = \
@@ -1935,7 +1901,6 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
              'fill': 'black',
              'fill-opacity': '1',
              'fill-rule': 'nonzero',
-             'font': None,
              'font-family': None,
              'font-feature-settings': 'normal',
              'font-kerning': Font.CSS_DEFAULT_FONT_KERNING,
@@ -2002,37 +1967,27 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                 value = css_style.get(key)
                 if value == 'inherit':
                     continue
-                elif value is not None:
+                elif value is not None and value not in ['initial', 'unset']:
                     style[key] = value
                 del non_inherited_props[key]
-            for key in iter(list(inherited_props.keys())):
+            for key in list(inherited_props):
                 value = css_style.get(key)
-                if value is not None and value not in ['inherit']:
-                    if key == 'font':
-                        # 'font' shorthand property
-                        style[key] = value
-                        _update_font_prop(value, style, inherited_props)
-                    elif key == 'font-family':
-                        # 'font-family' property
-                        style[key] = CSSUtils.parse_font_family(value)
-                        inherited_props.pop(key, None)
-                    elif key == 'font-variant':
-                        # 'font-variant' shorthand property
-                        style[key] = value
-                        _update_font_variant_prop(value, style,
-                                                  inherited_props)
-                    elif key == 'marker':
-                        # TODO: parse the 'marker' shorthand property.
-                        raise NotImplementedError
-                    else:
-                        if key in ['font-variant-alternates',
-                                   'font-variant-east-asian',
-                                   'font-variant-ligatures',
-                                   'font-variant-numeric']:
-                            style[key] = value.split()
-                        else:
-                            style[key] = value
-                        inherited_props.pop(key, None)
+                if value is None or value in ['inherit', 'unset']:
+                    continue
+                elif value == 'initial':
+                    value = inherited_props[key]
+                elif key == 'font-family':
+                    value = CSSUtils.parse_font_family(value)
+                elif key == 'marker':
+                    # TODO: parse the 'marker' shorthand property.
+                    raise NotImplementedError
+                elif key in ['font-variant-alternates',
+                             'font-variant-east-asian',
+                             'font-variant-ligatures',
+                             'font-variant-numeric']:
+                    value = value.split()
+                style[key] = value
+                del inherited_props[key]
             # 'display' property
             display = css_style.get('display')
             if display is not None and display == 'none':
diff --git a/svgpy/style.py b/svgpy/style.py
index 992f6bf..24ead4d 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 
+import re
 from functools import lru_cache
 from logging import getLogger
 
@@ -20,8 +21,11 @@ from cssselect.parser import parse
 from cssselect.xpath import XPathExpr
 from lxml import cssselect, etree
 
-from .css import CSSParser, CSSRule, CSSStyleSheet
-from .utils import normalize_url
+from .css import CSSParser, CSSRule, CSSStyleDeclaration, CSSStyleSheet
+from .css.longhands import Longhand
+from .css.props import css_wide_keyword_set
+from .css.shorthands import Shorthand, font_sub_property_list
+from .utils import normalize_url, style_to_dict
 
 
 _SVG_UA_CSS_STYLESHEET = '''
@@ -83,6 +87,8 @@ svg|svg, svg {
 # }
 # '''
 
+_RE_CSS_IMPORTANT = re.compile(r'\s*!\s*important\s*$', re.IGNORECASE)
+
 # precedence of the declarations, from the lowest to the highest
 _ORIGIN_USER_AGENT = 0
 _ORIGIN_AUTHOR = 1
@@ -90,6 +96,10 @@ _ORIGIN_AUTHOR_IMPORTANT = 2
 _ORIGIN_USER_AGENT_IMPORTANT = 3
 _SPECIFICITY_INLINE = (float('inf'),)
 
+# shorthand properties that are used as a whole
+_SHORTHANDS = ('font-synthesis', 'font-variant', 'mask', 'overflow',
+               'text-decoration', 'white-space')
+
 logger = getLogger(__name__)
 
 
@@ -335,18 +345,33 @@ def get_cascaded_style(element, css_rules):
             declared.append(((_ORIGIN_AUTHOR, (), -1), key, value))
 
     # inline style
-    inline_style = getattr(element, 'style', None)
-    if inline_style is not None:
-        for key, (value, priority) in inline_style.items():
-            origin = _ORIGIN_AUTHOR_IMPORTANT if priority == 'important' \
-                else _ORIGIN_AUTHOR
-            declared.append(
-                ((origin, _SPECIFICITY_INLINE, 0), key, value))
+    for key, value in style_to_dict(element.get('style')).items():
+        origin = _ORIGIN_AUTHOR
+        matched = _RE_CSS_IMPORTANT.search(value)
+        if matched is not None:
+            origin = _ORIGIN_AUTHOR_IMPORTANT
+            value = value[:matched.start()]
+        declared.append(((origin, _SPECIFICITY_INLINE, 0), key, value))
 
     declared.sort(key=lambda it: it[0])
     style = dict()
+    declarations = CSSStyleDeclaration()
     for _, key, value in declared:
+        if Longhand.is_longhand(key) or Shorthand.is_shorthand(key):
+            declarations.set_property(key, value)
+        else:
+            style[key] = value
+        if key == 'font':
+            keyword = value.lower()
+            for property_name in font_sub_property_list:
+                style[property_name] = \
+                    keyword if keyword in css_wide_keyword_set else 'initial'
+    for key, (value, _) in declarations.items():
         style[key] = value
+    for key in _SHORTHANDS:
+        value = declarations.get_property_value(key)
+        if len(value) > 0:
+            style[key] = value
     return style
 
 
-- 
2.43.0


From 034cc89cabd053d564fec55d2f3a07b41f706e31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:05 +0000
Subject: [PATCH 071/103] fix: the marker shorthand property raised
 NotImplementedError

---
 svgpy/dom.py   | 4 ----
 svgpy/style.py | 3 +++
 2 files changed, 3 insertions(+), 4 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 2c6a2f9..7d57881 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1923,7 +1923,6 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
              'lang': None,
              'letter-spacing': 'normal',
              'line-height': Font.CSS_DEFAULT_LINE_HEIGHT,
-             'marker': None,
              'marker-end': 'none',
              'marker-mid': 'none',
              'marker-start': 'none',
@@ -1978,9 +1977,6 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
                     value = inherited_props[key]
                 elif key == 'font-family':
                     value = CSSUtils.parse_font_family(value)
-                elif key == 'marker':
-                    # TODO: parse the 'marker' shorthand property.
-                    raise NotImplementedError
                 elif key in ['font-variant-alternates',
                              'font-variant-east-asian',
                              'font-variant-ligatures',
diff --git a/svgpy/style.py b/svgpy/style.py
index 24ead4d..8a637ed 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -359,6 +359,9 @@ def get_cascaded_style(element, css_rules):
     for _, key, value in declared:
         if Longhand.is_longhand(key) or Shorthand.is_shorthand(key):
             declarations.set_property(key, value)
+        elif key == 'marker':
+            for property_name in ('marker-start', 'marker-mid', 'marker-end'):
+                style[property_name] = value
         else:
             style[key] = value
         if key == 'font':
-- 
2.43.0


From e5b5a723db9ac36c2f5cd1381c7ddb3e74566f0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:07 +0000
Subject: [PATCH 072/103] fix: style rules for pseudo-elements do not apply to
 the element

---
 svgpy/style.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgpy/style.py b/svgpy/style.py
index 8a637ed..d1baea9 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -472,5 +472,7 @@ def _match_selectors(element, root, selector_text, namespaces,
 @lru_cache(maxsize=1024)
 def _translate_selectors(selector_text, default_namespace):
     translator = _SelectorTranslator(default_namespace)
-    return [(translator.selector_to_xpath(selector), selector.specificity())
+    return [(translator.selector_to_xpath(selector,
+                                          translate_pseudo_elements=True),
+             selector.specificity())
             for selector in parse(selector_text)]
-- 
2.43.0


From ecbec26eeaf05ff12630f116389e6d43da25295f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:13 +0000
Subject: [PATCH 073/103] fix: style sheets and documents at data: URLs without
 base64 raised TypeError or AttributeError

---
 svgpy/css/__init__.py | 16 +++++++++++-----
 svgpy/window.py       |  4 +++-
 2 files changed, 14 insertions(+), 6 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index fe86dc4..07610c5 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1633,11 +1633,17 @@ class CSSParser(object):
                     encoding = 'utf-8'
                 else:
                     encoding = content_type.get('charset', 'utf-8')
-            rules, encoding = tinycss2.parse_stylesheet_bytes(
-                css_bytes=data,
-                protocol_encoding=encoding,
-                skip_comments=True,
-                skip_whitespace=True)
+            if isinstance(data, str):
+                rules = tinycss2.parse_stylesheet(
+                    data,
+                    skip_comments=True,
+                    skip_whitespace=True)
+            else:
+                rules, encoding = tinycss2.parse_stylesheet_bytes(
+                    css_bytes=data,
+                    protocol_encoding=encoding,
+                    skip_comments=True,
+                    skip_whitespace=True)
             css_rules = CSSParser.parse_rules(
                 rules,
                 parent_style_sheet=css_style_sheet,
diff --git a/svgpy/window.py b/svgpy/window.py
index 8daf7f3..aff0c93 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -846,7 +846,9 @@ class SVGDOMImplementation(DOMImplementation):
                 charset = 'utf-8'
             else:
                 charset = content_type.get('charset', 'utf-8')
-            data = StringIO(data.decode(charset))
+            if isinstance(data, bytes):
+                data = data.decode(charset)
+            data = StringIO(data)
         else:
             data = source
         tree = self._parser.parse(data)
-- 
2.43.0


From 4e089fc8e04a68a3e20d2745c95f352d8a9fe3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:55:45 +0000
Subject: [PATCH 074/103] fix: sizes and transformations of SVG fragments
 inside HTML contents of an SVG document raised AttributeError

---
 svgpy/base.py | 23 ++++++++++++++---------
 1 file changed, 14 insertions(+), 9 deletions(-)

diff --git a/svgpy/base.py b/svgpy/base.py
index d15efd9..54ee8da 100644
--- a/svgpy/base.py
+++ b/svgpy/base.py
@@ -27,6 +27,16 @@ from .transform import SVGTransformList
 from .utils import QualifiedName
 
 
+def _get_nearest_viewport_element(element):
+    # the element may be a non-SVG ancestor, such as the contents of
+    # 'foreignObject'
+    while element is not None:
+        if element.local_name in ('svg', 'symbol'):
+            return element
+        element = element.getparent()
+    return None
+
+
 class HTMLOrSVGElement(Element):
     """Represents the [HTML] HTMLOrSVGElement."""
 
@@ -228,12 +238,7 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
         return None
 
     def get_nearest_viewport_element(self):
-        element = self
-        while element is not None:
-            if element.local_name in ('svg', 'symbol'):
-                return element
-            element = element.getparent()
-        return None
+        return _get_nearest_viewport_element(self)
 
     def get_view_box(self, recursive=True):
         """Gets values of the 'viewBox' and 'preserveAspectRatio' attributes
@@ -246,7 +251,7 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
         """
         element = self
         while element is not None:
-            root = element.get_nearest_viewport_element()
+            root = _get_nearest_viewport_element(element)
             if root is None:
                 return None
             assert isinstance(root, SVGFitToViewBox)
@@ -272,7 +277,7 @@ class SVGElement(ElementCSSInlineStyle, HTMLOrSVGElement):
         element = self
         roots = list()
         while element is not None:
-            root = element.get_nearest_viewport_element()
+            root = _get_nearest_viewport_element(element)
             if root is None:
                 break
             roots.insert(0, root)
@@ -348,7 +353,7 @@ class SVGGraphicsElement(SVGElement):
         else:
             element = self
             while element is not None:
-                root = element.get_nearest_viewport_element()
+                root = _get_nearest_viewport_element(element)
                 if root is None or root in roots:
                     break
                 roots.insert(0, root)
-- 
2.43.0


From 7c226185e1a3d33c58b75dfdfc81762fe23b463c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:35 +0000
Subject: [PATCH 075/103] fix: CSSMathInvert does not change the type of its
 argument

---
 svgpy/css/types.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 1909543..3458228 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1263,9 +1263,10 @@ class CSSMathInvert(CSSMathValue):
         super().__init__()
         values = CSSNumericValue.rectify_values([arg])
         self._value = values[0]
-        self._type = self._value.type()
+        self._type = self._value.type().copy()
         for key in list(self._type):
-            self._type[key] *= -1
+            if key != CSSNumericType.PERCENT_HINT:
+                self._type[key] *= -1
 
     @property
     def operator(self):
-- 
2.43.0


From a7600d035c5be18f719036ed9def0ea2be1de2d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:37 +0000
Subject: [PATCH 076/103] fix: the type of a product counts the percentages of
 its factors

---
 svgpy/css/types.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 3458228..9964bca 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -326,7 +326,8 @@ class CSSNumericType(CSSNumericBaseType, OrderedDict):
         final_type.update(type1)
         base_type_keys = {CSSNumericType.LENGTH, CSSNumericType.ANGLE,
                           CSSNumericType.TIME, CSSNumericType.FREQUENCY,
-                          CSSNumericType.RESOLUTION, CSSNumericType.FLEX}
+                          CSSNumericType.RESOLUTION, CSSNumericType.FLEX,
+                          CSSNumericType.PERCENT}
         for key in set(type2) & base_type_keys:
             power = type2[key]
             if key in final_type:
-- 
2.43.0


From 6fcffe2c17d88676df988ecc2ac1c51994364a10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:39 +0000
Subject: [PATCH 077/103] fix: a sum adds up only terms of the same units and
 powers

---
 svgpy/css/types.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 9964bca..6125d6f 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1553,9 +1553,8 @@ class CSSMathSum(CSSMathValue):
             if value is None:
                 return None
             for sub_value, sub_unit_map in value:
-                sub_unit_map_keys = sorted(sub_unit_map.keys())
                 found = [i for i, (value, unit_map) in enumerate(values)
-                         if sorted(unit_map.keys()) == sub_unit_map_keys]
+                         if unit_map == sub_unit_map]
                 if len(found) == 0:
                     values.append([sub_value, sub_unit_map])
                 else:
@@ -1570,7 +1569,7 @@ class CSSMathSum(CSSMathValue):
             type2 = CSSNumericType.create_type_from_unit_map(unit_map)
             if type2 is None:
                 return None
-            type1 = CSSNumericType.multiply_types(type1, type2)
+            type1 = CSSNumericType.add_types(type1, type2)
             if type1 is None:
                 return None
         return [(value, unit_map) for value, unit_map in values]
-- 
2.43.0


From af049d5d42f895e2d802abd1822f3483868366bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:41 +0000
Subject: [PATCH 078/103] fix: a product of several lengths does not convert to
 one length

---
 svgpy/css/types.py | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 6125d6f..0ec4a90 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1152,15 +1152,7 @@ class CSSNumericValue(CSSStyleValue):
         sum_value = self.create_sum_value()
         if sum_value is None or len(sum_value) != 1:
             raise ValueError('Cannot convert to ' + repr(unit))
-        value, unit_map = sum_value[0]
-        units = [unit for unit, power in unit_map.items() if power != 0]
-        unit_map_length = len(units)
-        if unit_map_length == 0:
-            item = CSSUnitValue(value, UnitType.NUMBER)
-        elif unit_map_length > 1:
-            raise ValueError('Incompatible types')
-        else:
-            item = CSSUnitValue(value, units[0])
+        item = CSSUnitValue.create_from_sum_value_item(sum_value[0])
         if item.unit == unit.lower():
             return item
         return item.to(unit)
-- 
2.43.0


From 7355c9a3007652b0b09fc6792324dfb550d5131b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:46:42 +0000
Subject: [PATCH 079/103] fix: equal negations, inversions and clamps are equal

---
 svgpy/css/types.py | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 0ec4a90..b255991 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1091,6 +1091,18 @@ class CSSNumericValue(CSSStyleValue):
                 for value1, value2 in zip(self.values, item.values):
                     if not value1.equals(value2):
                         return False
+            elif ((isinstance(self, CSSMathNegate)
+                   and isinstance(item, CSSMathNegate))
+                  or (isinstance(self, CSSMathInvert)
+                      and isinstance(item, CSSMathInvert))):
+                if not self.value.equals(item.value):
+                    return False
+            elif (isinstance(self, CSSMathClamp)
+                  and isinstance(item, CSSMathClamp)):
+                if not (self.min.equals(item.min)
+                        and self.val.equals(item.val)
+                        and self.max.equals(item.max)):
+                    return False
             else:
                 return False
         return True
-- 
2.43.0


From eecc753ab4fcebb35877198fc9a43594e86ea86d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:49 +0000
Subject: [PATCH 080/103] fix: nested and mixed operators of calc(),
 parentheses and expressions as arguments of min(), max() and clamp() are
 parsed

---
 svgpy/css/types.py | 214 ++++++++++++++++-----------------------------
 1 file changed, 77 insertions(+), 137 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index b255991..c4e4513 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -835,8 +835,7 @@ class CSSKeywordValue(CSSStyleValue):
 
 class _MathExpression(object):
 
-    def __init__(self, parent, operator, values):
-        self._parent = parent
+    def __init__(self, operator, values):
         self._operator = operator
         self._values = list(values)
 
@@ -850,18 +849,6 @@ class _MathExpression(object):
     def operator(self):
         return self._operator
 
-    @operator.setter
-    def operator(self, operator):
-        self._operator = operator
-
-    @property
-    def parent(self):
-        return self._parent
-
-    @parent.setter
-    def parent(self, parent):
-        self._parent = parent
-
     @property
     def values(self):
         return self._values
@@ -874,10 +861,20 @@ class CSSNumericValue(CSSStyleValue):
         super().__init__()
 
     @staticmethod
-    def _parse_math_expression(css_text, token, root_node=None):
-        function_name = token.lower_name
+    def _parse_math_expression(css_text, token):
+        if token.type == '() block':
+            function_name = 'calc'
+            args = token.content
+        else:
+            function_name = token.lower_name
+            args = token.arguments
+
         if function_name == 'calc':
-            operator = None
+            node = CSSNumericValue._parse_math_sum(css_text, args)
+            if token.type == 'function' and not isinstance(node,
+                                                           _MathExpression):
+                node = _MathExpression(None, [node])
+            return node
         elif function_name == 'clamp':
             operator = CSSMathOperator.CLAMP
         elif function_name == 'max':
@@ -887,125 +884,71 @@ class CSSNumericValue(CSSStyleValue):
         else:
             raise ValueError('Invalid math expression: ' + repr(token))
 
-        args = [arg for arg in token.arguments if arg.type != 'whitespace']
-        if len(args) == 0:
+        values = list()
+        value = list()
+        for arg in args:
+            if arg.type == 'literal' and arg.value == ',':
+                values.append(CSSNumericValue._parse_math_sum(css_text, value))
+                value = list()
+            else:
+                value.append(arg)
+        values.append(CSSNumericValue._parse_math_sum(css_text, value))
+        if operator == CSSMathOperator.CLAMP and len(values) != 3:
             raise ValueError('Invalid math expression: ' + repr(css_text))
-        current_node = _MathExpression(root_node, operator, [])
-        while len(args) > 0:
-            arg = args.pop(0)
-            operator = current_node.operator
-            if arg.type == 'literal':
-                literal = arg.value
-                if (literal == ',' and operator in (CSSMathOperator.CLAMP,
-                                                    CSSMathOperator.MAX,
-                                                    CSSMathOperator.MIN)):
-                    continue
-                elif literal == '*':
-                    if operator is None:
-                        current_node.operator = CSSMathOperator.PRODUCT
-                    elif operator != CSSMathOperator.PRODUCT:
-                        previous_node = current_node
-                        previous_value = previous_node.values.pop(-1)
-                        current_node = _MathExpression(
-                            previous_node,
-                            CSSMathOperator.PRODUCT,
-                            [previous_value])
-                        previous_node.values.append(current_node)
-                elif literal == '+':
-                    if operator is None:
-                        current_node.operator = CSSMathOperator.SUM
-                    elif operator != CSSMathOperator.SUM:
-                        while True:
-                            parent_node = current_node.parent
-                            if parent_node is None:
-                                break
-                            current_node = parent_node
-                        previous_node = current_node
-                        current_node = _MathExpression(
-                            previous_node.parent,
-                            CSSMathOperator.SUM,
-                            [previous_node])
-                        previous_node.parent = current_node
-                elif literal == '/':
-                    if len(args) == 0:
-                        raise ValueError('Invalid math expression: '
-                                         + repr(css_text))
-                    next_token = args.pop(0)
-                    next_value = CSSNumericValue._parse_numeric_value(
-                        css_text, next_token, root_node=current_node)
-                    next_node = _MathExpression(
-                        current_node,
-                        CSSMathOperator.INVERT,
-                        [next_value])
-                    if operator == CSSMathOperator.PRODUCT:
-                        current_node.values.append(next_node)
-                    else:
-                        if len(current_node.values) == 1:
-                            current_node.operator = CSSMathOperator.PRODUCT
-                            current_node.values.append(next_node)
-                        else:
-                            previous_value = current_node.values.pop(-1)
-                            node = _MathExpression(
-                                current_node,
-                                CSSMathOperator.PRODUCT,
-                                [previous_value, next_node])
-                            current_node.values.append(node)
-                elif literal == '-':
-                    # TODO: fix process of a "negate" node.
-                    if len(args) == 0:
-                        raise ValueError('Invalid math expression: '
-                                         + repr(css_text))
-                    next_token = args.pop(0)
-                    next_value = CSSNumericValue._parse_numeric_value(
-                        css_text, next_token, root_node=current_node)
-                    next_node = _MathExpression(
-                        current_node,
-                        CSSMathOperator.NEGATE,
-                        [next_value])
-                    if operator == CSSMathOperator.SUM:
-                        current_node.values.append(next_node)
-                    else:
-                        if len(current_node.values) == 1:
-                            current_node.operator = CSSMathOperator.SUM
-                            current_node.values.append(next_node)
-                        else:
-                            parent_node = current_node.parent
-                            if parent_node is None:
-                                parent_node = _MathExpression(
-                                    None,
-                                    CSSMathOperator.SUM,
-                                    [current_node, next_node])
-                                current_node.parent = parent_node
-                                next_node.parent = parent_node
-                                current_node = parent_node
-                            else:
-                                previous_value = parent_node.values.pop(-1)
-                                node = _MathExpression(
-                                    current_node,
-                                    CSSMathOperator.SUM,
-                                    [previous_value, next_node])
-                                parent_node.values.append(node)
-                else:
-                    raise ValueError('Invalid math expression: ' + repr(arg))
+        return _MathExpression(operator, values)
+
+    @staticmethod
+    def _parse_math_sum(css_text, args):
+        # value [ [ '+' | '-' | '*' | '/' ] value ]*
+        args = [arg for arg in args if arg.type != 'whitespace']
+        if len(args) % 2 == 0:
+            raise ValueError('Invalid math expression: ' + repr(css_text))
+        terms = list()
+        factors = list([CSSNumericValue._parse_numeric_value(css_text,
+                                                             args[0])])
+        for i in range(1, len(args), 2):
+            literal = args[i].value if args[i].type == 'literal' else None
+            value = CSSNumericValue._parse_numeric_value(css_text, args[i + 1])
+            if literal == '*':
+                if (len(terms) > 0
+                        and isinstance(factors[-1], _MathExpression)
+                        and factors[-1].operator == CSSMathOperator.INVERT):
+                    # a quotient is a factor of its own
+                    factors = list([
+                        _MathExpression(CSSMathOperator.PRODUCT, factors)])
+                factors.append(value)
+            elif literal == '/':
+                factors.append(
+                    _MathExpression(CSSMathOperator.INVERT, [value]))
+            elif literal in ('+', '-'):
+                CSSNumericValue._append_term(terms, factors)
+                if literal == '-':
+                    value = _MathExpression(CSSMathOperator.NEGATE, [value])
+                factors = list([value])
             else:
-                node = CSSNumericValue._parse_numeric_value(
-                    css_text,
-                    arg,
-                    root_node=current_node)
-                current_node.values.append(node)
-
-        while True:
-            parent_node = current_node.parent
-            if (parent_node is None
-                    or (root_node is not None
-                        and parent_node is not None
-                        and parent_node == root_node)):
-                break
-            current_node = parent_node
-        return current_node
+                raise ValueError('Invalid math expression: ' + repr(css_text))
+        CSSNumericValue._append_term(terms, factors)
+        if len(terms) == 1:
+            return terms[0]
+        return _MathExpression(CSSMathOperator.SUM, terms)
+
+    @staticmethod
+    def _append_term(terms, factors):
+        if len(factors) > 1:
+            node = _MathExpression(CSSMathOperator.PRODUCT, factors)
+        else:
+            node = factors[0]
+        if (len(terms) > 1
+                and isinstance(node, _MathExpression)
+                and node.operator == CSSMathOperator.NEGATE
+                and isinstance(terms[-1], _MathExpression)
+                and terms[-1].operator == CSSMathOperator.PRODUCT):
+            # a + b * c - d => a + (b * c - d)
+            node = _MathExpression(CSSMathOperator.SUM, [terms.pop(), node])
+        terms.append(node)
 
     @staticmethod
-    def _parse_numeric_value(css_text, token, root_node=None):
+    def _parse_numeric_value(css_text, token):
         if token.type == 'number':
             # <number-token>
             return CSSUnitValue(token.value, UnitType.NUMBER)
@@ -1015,12 +958,9 @@ class CSSNumericValue(CSSStyleValue):
         elif token.type == 'dimension':
             # <dimension-token>
             return CSSUnitValue(token.value, token.unit)
-        elif token.type == 'function':
+        elif token.type in ('function', '() block'):
             # 'math function'
-            return CSSNumericValue._parse_math_expression(
-                css_text,
-                token,
-                root_node=root_node)
+            return CSSNumericValue._parse_math_expression(css_text, token)
         raise ValueError('Invalid math expression: ' + repr(token))
 
     @staticmethod
-- 
2.43.0


From 716bb7bfb2d518ad353806607e22829bd74fe785 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:51 +0000
Subject: [PATCH 081/103] fix: parentheses of nested math expressions are
 written where they are needed

---
 svgpy/css/types.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index c4e4513..7e981ad 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1190,6 +1190,8 @@ class CSSMathClamp(CSSMathValue):
     def tostring(self, **kwargs):
         if self._css_text is not None:
             return self._css_text
+        kwargs['nested'] = True
+        kwargs['paren_less'] = True
         args = list()
         args.append(self._min.tostring(**kwargs))
         args.append(self._val.tostring(**kwargs))
@@ -1239,7 +1241,10 @@ class CSSMathInvert(CSSMathValue):
             s = '(' if nested else 'calc('
         else:
             s = ''
-        s += '1 / ' + self._value.tostring(**kwargs)
+        kwargs2 = kwargs.copy()
+        kwargs2['nested'] = True
+        kwargs2['paren_less'] = False
+        s += '1 / ' + self._value.tostring(**kwargs2)
         if not paren_less:
             s += ')'
         return s
@@ -1388,7 +1393,10 @@ class CSSMathNegate(CSSMathValue):
         else:
             s = ''
         s += '-'
-        s += self._value.tostring(**kwargs)
+        kwargs2 = kwargs.copy()
+        kwargs2['nested'] = True
+        kwargs2['paren_less'] = False
+        s += self._value.tostring(**kwargs2)
         if not paren_less:
             s += ')'
         return s
@@ -1450,6 +1458,7 @@ class CSSMathProduct(CSSMathValue):
             s = ''
         kwargs2 = kwargs.copy()
         kwargs2['nested'] = True
+        kwargs2['paren_less'] = False
         s += self._values[0].tostring(**kwargs2)
         for arg in self._values[1:]:
             if isinstance(arg, CSSMathInvert):
@@ -1529,6 +1538,7 @@ class CSSMathSum(CSSMathValue):
             s = ''
         kwargs2 = kwargs.copy()
         kwargs2['nested'] = True
+        kwargs2['paren_less'] = False
         s += self._values[0].tostring(**kwargs2)
         for arg in self._values[1:]:
             if isinstance(arg, CSSMathNegate):
-- 
2.43.0


From a479b269a0d5ece7d7ba3484783b678902d1ef44 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:48:52 +0000
Subject: [PATCH 082/103] fix: a changed number of a parsed value is written

---
 svgpy/css/types.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index 7e981ad..e97f8e0 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1645,6 +1645,7 @@ class CSSUnitValue(CSSNumericValue):
     @value.setter
     def value(self, value):
         self._value = Decimal(value)
+        self._css_text = None
 
     @staticmethod
     def create_from_sum_value_item(item):
-- 
2.43.0


From d59353f2ce8709e3395e7f66b6a98459f91b5c20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:51:00 +0000
Subject: [PATCH 083/103] fix: a sum of several units converts to a sum of
 units in another order

---
 svgpy/css/types.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/css/types.py b/svgpy/css/types.py
index e97f8e0..6f7e5f3 100644
--- a/svgpy/css/types.py
+++ b/svgpy/css/types.py
@@ -1130,7 +1130,7 @@ class CSSNumericValue(CSSStyleValue):
                             and canonical_unit2 is not None
                             and canonical_unit1 == canonical_unit2)):
                     temp.value += value.to(unit).value
-                    values.remove(value)
+                    values = [x for x in values if x is not value]
                     break
             result.append(temp)
         if len(values) > 0:
-- 
2.43.0


From 93df70cd66396a11e3fddf506634942f4998418c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 084/103] fix: documents with an encoding declaration load from
 their URL

---
 svgpy/window.py | 20 ++++++++++++++------
 1 file changed, 14 insertions(+), 6 deletions(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index aff0c93..a3290a3 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -13,10 +13,11 @@
 # limitations under the License.
 
 
+import re
 from abc import ABC, abstractmethod
 from collections.abc import Collection
 from fractions import Fraction
-from io import StringIO
+from io import BytesIO, StringIO
 from logging import getLogger
 
 from lxml import etree
@@ -33,6 +34,8 @@ from .utils import get_content_type, get_element_by_id, \
     get_elements_by_class_name, get_elements_by_tag_name, \
     get_elements_by_tag_name_ns, load, normalize_url
 
+_RE_XML_DECLARATION = re.compile(r'^\uFEFF?\s*<\?xml\s[^>]*\?>')
+
 
 class BrowsingContext(object):
     """A browsing context object that is associated with the document."""
@@ -843,12 +846,17 @@ class SVGDOMImplementation(DOMImplementation):
             data, headers = load(source)
             content_type = get_content_type(headers)
             if content_type is None:
-                charset = 'utf-8'
+                charset = None
+            else:
+                charset = content_type.get('charset')
+            if isinstance(data, bytes) and charset is None:
+                # the encoding is found by the XML parser
+                data = BytesIO(data)
             else:
-                charset = content_type.get('charset', 'utf-8')
-            if isinstance(data, bytes):
-                data = data.decode(charset)
-            data = StringIO(data)
+                if isinstance(data, bytes):
+                    data = data.decode(charset)
+                # the encoding declaration does not apply to a string
+                data = StringIO(_RE_XML_DECLARATION.sub('', data))
         else:
             data = source
         tree = self._parser.parse(data)
-- 
2.43.0


From 638d8b20dc311801c5c82b542b774796bf98f58d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 085/103] fix: a quoted parameter of the content type is its
 value

---
 svgpy/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/svgpy/utils.py b/svgpy/utils.py
index d27989d..e34f51a 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -73,7 +73,7 @@ def get_content_type(headers):
     for parameter in parameters:
         items = parameter.split('=')
         if len(items) == 2:
-            result[items[0]] = items[1]
+            result[items[0]] = remove_quotes(items[1])
     return result
 
 
-- 
2.43.0


From 642888673dbc808f801b3ee754d97c2ebafc42dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:44 +0000
Subject: [PATCH 086/103] fix: creating an element leaves the given namespace
 map alone

---
 svgpy/element.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/svgpy/element.py b/svgpy/element.py
index 5b235de..90f258f 100644
--- a/svgpy/element.py
+++ b/svgpy/element.py
@@ -1326,8 +1326,7 @@ class SVGParser(object):
             >>> e.tag, e.node_name, e.tag_name, e.local_name
             ('{http://www.w3.org/1999/xhtml}source', 'html:source', 'html:source', 'source')
         """
-        if nsmap is None:
-            nsmap = dict()
+        nsmap = dict(nsmap) if nsmap is not None else dict()
         if None not in nsmap:
             nsmap[None] = Element.SVG_NAMESPACE_URI
         qname = QualifiedName(namespace, qualified_name)
-- 
2.43.0


From 4ac7862c64ceca06e787631979197918d04a03e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:40:45 +0000
Subject: [PATCH 087/103] fix: the text after a child node is part of the text
 content

---
 svgpy/dom.py | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/svgpy/dom.py b/svgpy/dom.py
index 7d57881..db26be4 100644
--- a/svgpy/dom.py
+++ b/svgpy/dom.py
@@ -1528,7 +1528,7 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
         # See https://dom.spec.whatwg.org/#dom-node-textcontent
         local_name = self.local_name
         if local_name in Element.DESCRIPTIVE_ELEMENTS:
-            return self.text
+            return str(self.xpath('string()'))
         elif local_name in Element.TEXT_CONTENT_ELEMENTS:
             chars = Element._get_text_content(self)
             return ''.join(chars)
@@ -1548,15 +1548,15 @@ class Element(etree.ElementBase, Node, ParentNode, NonDocumentTypeChildNode):
             chars.append(element.text)
 
         for child in iter(element):
-            if child.node_type != Node.ELEMENT_NODE:
-                continue
-            local_name = child.local_name
-            if local_name in Element.TEXT_CONTENT_ELEMENTS:
-                contents = Element._get_text_content(child)
-                chars.extend(contents)
-                if (local_name in Element.TEXT_CONTENT_CHILD_ELEMENTS
-                        and child.tail is not None):
-                    chars.append(child.tail)
+            if child.node_type == Node.ELEMENT_NODE:
+                local_name = child.local_name
+                if local_name in Element.TEXT_CONTENT_ELEMENTS:
+                    contents = Element._get_text_content(child)
+                    chars.extend(contents)
+                if local_name not in Element.TEXT_CONTENT_CHILD_ELEMENTS:
+                    continue
+            if child.tail is not None:
+                chars.append(child.tail)
         return chars
 
     def addnext(self, node):
-- 
2.43.0


From 49da58636861f35c34986c6943fda7880fcba761 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:20 +0000
Subject: [PATCH 088/103] fix: imports resolve against the style sheet that has
 them

---
 svgpy/css/__init__.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 07610c5..b1eea8d 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1042,7 +1042,7 @@ class CSSImportRule(CSSRule):
     def _parse_prelude(self, prelude):
         if self.parent_style_sheet is not None:
             owner_node = self.parent_style_sheet.owner_node
-            base_url = self.parent_style_sheet.href
+            base_url = self.parent_style_sheet.base_url
             if base_url is None and owner_node is not None:
                 doc = owner_node.owner_document
                 if doc is not None:
@@ -1514,6 +1514,7 @@ class CSSStyleSheet(StyleSheet):
         super().__init__(**extra)
         self._owner_rule = owner_rule
         self._css_rules = list()
+        self._base_url = self._href
 
     def __repr__(self):
         return repr({
@@ -1525,6 +1526,11 @@ class CSSStyleSheet(StyleSheet):
             }
         })
 
+    @property
+    def base_url(self):
+        """str: The entire URL the style sheet was loaded from."""
+        return self._base_url
+
     @property
     def owner_rule(self):
         """CSSRule: The owner CSS rule."""
@@ -1623,6 +1629,7 @@ class CSSParser(object):
                 'media': owner_node.get('media'),
             })
         css_style_sheet = CSSStyleSheet(owner_rule=parent_rule, **extra)
+        css_style_sheet._base_url = url
         logger = getLogger('{}.{}'.format(__name__, cls.__name__))
         try:
             logger.debug('urlopen \'{}\''.format(url))
-- 
2.43.0


From 56fc9fa84696c95e2e84f1f004abd4f0092a4968 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:43 +0000
Subject: [PATCH 089/103] fix: style sheets that import each other load

---
 svgpy/css/__init__.py | 17 ++++++++++++++++-
 1 file changed, 16 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index b1eea8d..684b34f 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1039,6 +1039,21 @@ class CSSImportRule(CSSRule):
             }
         })
 
+    def _is_recursive(self):
+        # an imported style sheet cannot import the ones it is imported by
+        url = self._href.split('#', maxsplit=1)[0]
+        style_sheet = self.parent_style_sheet
+        while style_sheet is not None:
+            base_url = style_sheet.base_url
+            if (base_url is not None
+                    and base_url.split('#', maxsplit=1)[0] == url):
+                return True
+            owner_rule = style_sheet.owner_rule
+            style_sheet = (owner_rule.parent_style_sheet
+                           if owner_rule is not None
+                           else None)
+        return False
+
     def _parse_prelude(self, prelude):
         if self.parent_style_sheet is not None:
             owner_node = self.parent_style_sheet.owner_node
@@ -1060,7 +1075,7 @@ class CSSImportRule(CSSRule):
                 mediums.append(token)
         if len(mediums) > 0:
             self._media.media_text = tinycss2.serialize(mediums)
-        if self._href is None:
+        if self._href is None or self._is_recursive():
             self._style_sheet = CSSStyleSheet(owner_node=owner_node,
                                               media=self._media.media_text,
                                               owner_rule=self)
-- 
2.43.0


From c2d3ec9ee8d5c3a805620a6f391af7e0c6b9ca18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:43 +0000
Subject: [PATCH 090/103] fix: a link without a URL has no style sheet

---
 svgpy/style.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/svgpy/style.py b/svgpy/style.py
index d1baea9..614a616 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -224,7 +224,7 @@ def get_css_style_sheet_from_element(element, doc=None):
                 element, repr(rel_list), repr(as_)))
             return None  # TODO: support alternative style sheet.
         href = element.href
-        if href is None or href[0] == '#':
+        if not href or href[0] == '#':
             logger.debug('invalid URL: {} href={}'.format(
                 element, repr(href)))
             return None
@@ -302,7 +302,7 @@ def get_css_style_sheets_from_xml_stylesheet(root):
         elif element.target != 'xml-stylesheet':
             continue
         href = element.get('href')
-        if (href is None
+        if (not href
                 or href[0] == '#'
                 or element.get('alternate', '') == 'yes'):
             logger.debug('not a style sheet: {}'.format(element))
-- 
2.43.0


From 530c0c9b3462098fae6a0bd04f045122b217f37a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:53 +0000
Subject: [PATCH 091/103] fix: a page that cannot be loaded leaves the current
 one in place

---
 svgpy/url.py    | 47 ++++++++++++++++++++++++++++-------------------
 svgpy/window.py |  8 +++++---
 2 files changed, 33 insertions(+), 22 deletions(-)

diff --git a/svgpy/url.py b/svgpy/url.py
index df03f8a..4fc4284 100644
--- a/svgpy/url.py
+++ b/svgpy/url.py
@@ -13,6 +13,7 @@
 # limitations under the License.
 
 
+import copy
 import os
 import re
 import sys
@@ -87,8 +88,9 @@ class Location(object):
 
     @hash.setter
     def hash(self, fragment):
-        self._url.hash = fragment
-        self._navigate()
+        url = copy.deepcopy(self._url)
+        url.hash = fragment
+        self._navigate(url)
 
     @property
     def host(self):
@@ -100,8 +102,9 @@ class Location(object):
 
     @host.setter
     def host(self, host):
-        self._url.host = host
-        self._navigate()
+        url = copy.deepcopy(self._url)
+        url.host = host
+        self._navigate(url)
 
     @property
     def hostname(self):
@@ -112,8 +115,9 @@ class Location(object):
 
     @hostname.setter
     def hostname(self, hostname):
-        self._url.hostname = hostname
-        self._navigate()
+        url = copy.deepcopy(self._url)
+        url.hostname = hostname
+        self._navigate(url)
 
     @property
     def href(self):
@@ -124,8 +128,9 @@ class Location(object):
 
     @href.setter
     def href(self, url):
-        self._url.href = url
-        self._navigate()
+        new_url = copy.deepcopy(self._url)
+        new_url.href = url
+        self._navigate(new_url)
 
     @property
     def origin(self):
@@ -141,8 +146,9 @@ class Location(object):
 
     @pathname.setter
     def pathname(self, pathname):
-        self._url.pathname = pathname
-        self._navigate()
+        url = copy.deepcopy(self._url)
+        url.pathname = pathname
+        self._navigate(url)
 
     @property
     def port(self):
@@ -153,8 +159,9 @@ class Location(object):
 
     @port.setter
     def port(self, port):
-        self._url.port = port
-        self._navigate()
+        url = copy.deepcopy(self._url)
+        url.port = port
+        self._navigate(url)
 
     @property
     def protocol(self):
@@ -165,8 +172,9 @@ class Location(object):
 
     @protocol.setter
     def protocol(self, protocol):
-        self._url.protocol = protocol
-        self._navigate()
+        url = copy.deepcopy(self._url)
+        url.protocol = protocol
+        self._navigate(url)
 
     @property
     def search(self):
@@ -177,18 +185,19 @@ class Location(object):
 
     @search.setter
     def search(self, search):
-        self._url.search = search
-        self._navigate()
+        url = copy.deepcopy(self._url)
+        url.search = search
+        self._navigate(url)
 
-    def _navigate(self):
+    def _navigate(self, url):
         if self._browsing_context is not None:
-            url = self._url
             if ((len(url.protocol) == 0 and len(url.host) == 0)
                     or url.protocol in ['blob:', 'data:']
                     or (url.protocol in ['about:', 'file:']
                         and len(url.pathname) == 0)):
                 raise ValueError('Invalid URL: ' + repr(url.href))
             self._browsing_context.document.navigate(url)
+        self._url = url
 
     def assign(self, url):
         """Navigates to the given URL.
@@ -200,7 +209,7 @@ class Location(object):
 
     def reload(self):
         """Reloads the current page."""
-        self._navigate()
+        self._navigate(self._url)
 
     def tostring(self, exclude_fragment=False):
         """Serializes a Location object.
diff --git a/svgpy/window.py b/svgpy/window.py
index a3290a3..1259ffe 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -564,12 +564,14 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
         resource = url.href
         logger = getLogger('{}.{}'.format(__name__, self.__class__.__name__))
         logger.debug('navigate to \'{}\''.format(resource))
+        new_root = None
+        if url.protocol != 'about:':
+            new_root = self._implementation.parse(resource)
         root = self._document_element
         if root is not None:
             self.remove(root)
-        if url.protocol != 'about:':
-            root = self._implementation.parse(resource)
-            self.append(root)
+        if new_root is not None:
+            self.append(new_root)
         return self
 
     def prepend(self, *nodes):
-- 
2.43.0


From c173982701c81fa11afe96ec8839172ff1eca986 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:49:53 +0000
Subject: [PATCH 092/103] fix: the nodes beside the root element belong to its
 document

---
 svgpy/window.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/svgpy/window.py b/svgpy/window.py
index 1259ffe..29a94ec 100644
--- a/svgpy/window.py
+++ b/svgpy/window.py
@@ -260,8 +260,9 @@ class Document(Node, NonElementParentNode, ParentNode, Collection):
                 if parent is not None:
                     parent.remove(node)
                 node.tail = None
-                node.attach_document(self)
                 root = self._document_element = node
+                for child in self.child_nodes:
+                    child.attach_document(self)
             elif node == root:
                 continue  # do nothing
             else:
-- 
2.43.0


From f4bed3da1bf98d33bbb12cb0674baeafde386cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 093/103] fix: a style sheet is read in the encoding its
 @charset rule says

---
 svgpy/css/__init__.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 684b34f..8af88d2 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1649,12 +1649,11 @@ class CSSParser(object):
         try:
             logger.debug('urlopen \'{}\''.format(url))
             data, headers = load(url)
-            if encoding is None:
-                content_type = get_content_type(headers)
-                if content_type is None:
-                    encoding = 'utf-8'
-                else:
-                    encoding = content_type.get('charset', 'utf-8')
+            content_type = get_content_type(headers)
+            if content_type is None:
+                protocol_encoding = None
+            else:
+                protocol_encoding = content_type.get('charset')
             if isinstance(data, str):
                 rules = tinycss2.parse_stylesheet(
                     data,
@@ -1663,7 +1662,8 @@ class CSSParser(object):
             else:
                 rules, encoding = tinycss2.parse_stylesheet_bytes(
                     css_bytes=data,
-                    protocol_encoding=encoding,
+                    protocol_encoding=protocol_encoding,
+                    environment_encoding=encoding,
                     skip_comments=True,
                     skip_whitespace=True)
             css_rules = CSSParser.parse_rules(
-- 
2.43.0


From 4b5194120cce8fd3d029c15886f4ad8d82631904 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 094/103] fix: a style sheet with a malformed data: URL is
 empty

---
 svgpy/css/__init__.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/svgpy/css/__init__.py b/svgpy/css/__init__.py
index 8af88d2..c69c190 100644
--- a/svgpy/css/__init__.py
+++ b/svgpy/css/__init__.py
@@ -1649,6 +1649,8 @@ class CSSParser(object):
         try:
             logger.debug('urlopen \'{}\''.format(url))
             data, headers = load(url)
+            if data is None:
+                raise ValueError('Invalid URL: ' + repr(url))
             content_type = get_content_type(headers)
             if content_type is None:
                 protocol_encoding = None
@@ -1671,7 +1673,7 @@ class CSSParser(object):
                 parent_style_sheet=css_style_sheet,
                 parent_rule=parent_rule)
             css_style_sheet.css_rules.extend(css_rules)
-        except URLError as exp:
+        except (URLError, ValueError) as exp:
             logger.info(
                 'failed to parse: \'{}\': {}'.format(url, repr(exp)))
         return css_style_sheet
-- 
2.43.0


From f4da639aa054951aa35a2e0f654510e3d17ac369 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 095/103] fix: linked style sheets of other types are not CSS

---
 svgpy/style.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/svgpy/style.py b/svgpy/style.py
index 614a616..bd45d50 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -223,6 +223,10 @@ def get_css_style_sheet_from_element(element, doc=None):
             logger.debug('not a style sheet: {} rel={} as={}'.format(
                 element, repr(rel_list), repr(as_)))
             return None  # TODO: support alternative style sheet.
+        if element.type not in ['', 'text/css']:
+            logger.debug('not a style sheet: {} type={}'.format(
+                element, repr(element.type)))
+            return None
         href = element.href
         if not href or href[0] == '#':
             logger.debug('invalid URL: {} href={}'.format(
@@ -304,6 +308,7 @@ def get_css_style_sheets_from_xml_stylesheet(root):
         href = element.get('href')
         if (not href
                 or href[0] == '#'
+                or element.get('type', 'text/css') != 'text/css'
                 or element.get('alternate', '') == 'yes'):
             logger.debug('not a style sheet: {}'.format(element))
             continue  # TODO: support alternative style sheet.
-- 
2.43.0


From 7c7250b05f1e98e213493a61226d6cb4c0c9cd1e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:08:17 +0000
Subject: [PATCH 096/103] fix: the style sheet of a style element is all of its
 text

---
 svgpy/style.py | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/svgpy/style.py b/svgpy/style.py
index bd45d50..adb3834 100644
--- a/svgpy/style.py
+++ b/svgpy/style.py
@@ -247,12 +247,14 @@ def get_css_style_sheet_from_element(element, doc=None):
                                           owner_node=element)
         return css_style_sheet
     else:  # 'style'
-        if element.type != 'text/css' or element.text is None:
+        text = (element.text or '') + ''.join(
+            child.tail or '' for child in element)
+        if element.type != 'text/css' or len(text) == 0:
             logger.debug(
                 'not a style sheet: {} type={} size={}'.format(
                     element,
                     repr(element.type),
-                    0 if element.text is None else len(element.text)))
+                    len(text)))
             return None
         media = element.media
         if media not in ['', 'all']:
@@ -268,7 +270,7 @@ def get_css_style_sheet_from_element(element, doc=None):
                                         owner_node=element,
                                         title=element.title,
                                         media=element.media)
-        css_rules = CSSParser.fromstring(element.text,
+        css_rules = CSSParser.fromstring(text,
                                          parent_style_sheet=css_style_sheet)
         css_style_sheet.css_rules.extend(css_rules)
         return css_style_sheet
-- 
2.43.0


From 62da76f9f5bb3d44a85515f08ffd5e7b5a6e8cdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:46 +0000
Subject: [PATCH 097/103] fix: text content with comments, empty tspans or
 other children

---
 svgpy/text.py | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/svgpy/text.py b/svgpy/text.py
index 5ef6935..81d5ad8 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -108,14 +108,13 @@ class SVGTextContentElement(SVGGraphicsElement):
                 child_chars_info, out_text = \
                     SVGTextContentElement._get_descendant_chars(
                         child, style_map, prev_text, first, **kwargs)
-                if len(out_text) > 0:
+                if len(child_chars_info) > 0:
                     chars_info += child_chars_info
                     prev_text = out_text
                     first = False
-            if (child.local_name in SVGElement.TEXT_CONTENT_CHILD_ELEMENTS
-                    and child.tail is not None):
+            if child.tail is not None:
                 out_text = CSSUtils.normalize_text_content(
-                    child,
+                    element,
                     child.tail,
                     style,
                     prev_text,
-- 
2.43.0


From 8e141e4eab0cc2300a8d491b0f410fdfc12bad0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:46 +0000
Subject: [PATCH 098/103] fix: white space between the runs of a text

---
 svgpy/core.py | 19 +++++++------------
 svgpy/text.py |  6 ++++--
 2 files changed, 11 insertions(+), 14 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index d7c07f0..bcb7476 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -81,8 +81,8 @@ class CSSUtils(object):
 
     _RE_COLLAPSIBLE_WHITESPACE = re.compile(r'(\x20){2,}', re.MULTILINE)
     _RE_SEGMENT_BREAKS = re.compile(r'(\r\n|\r|\n)+', re.MULTILINE)
-    _RE_PRECEDING_TAB_WHITESPACE = re.compile(r'^(\x20|\t)+', re.MULTILINE)
-    _RE_FOLLOWING_TAB_WHITESPACE = re.compile(r'(\x20|\t)+$', re.MULTILINE)
+    _RE_PRECEDING_TAB_WHITESPACE = re.compile(r'(?<=[\r\n])(\x20|\t)+')
+    _RE_FOLLOWING_TAB_WHITESPACE = re.compile(r'(\x20|\t)+(?=[\r\n])')
 
     @staticmethod
     def compute_font_size(element, inherited_size=None, inherited_style=None):
@@ -311,19 +311,14 @@ class CSSUtils(object):
             out_text = out_text.replace('\t', ' ')
             out_text = CSSUtils._RE_COLLAPSIBLE_WHITESPACE.sub(
                 ' ', out_text)
+            if first or (prev_text is not None and prev_text.endswith(' ')):
+                out_text = out_text.lstrip(' ')
+            # if len(element) == 0:
+            if tail:
+                out_text = out_text.rstrip(' ')
         if white_space in ['pre', 'pre-wrap']:
             out_text = _transform_segment_break(out_text, style)
 
-        if prev_text is not None:
-            if prev_text.endswith(' ') and out_text.startswith(' '):
-                out_text = out_text.lstrip()
-            elif not prev_text.endswith(' ') and not out_text.startswith(' '):
-                out_text = ' ' + out_text
-        if first:
-            out_text = out_text.lstrip(' ')
-        # if len(element) == 0:
-        if tail:
-            out_text = out_text.rstrip(' ')
 
         return out_text
 
diff --git a/svgpy/text.py b/svgpy/text.py
index 81d5ad8..e2bebf3 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -153,8 +153,10 @@ class SVGTextContentElement(SVGGraphicsElement):
             root, first=first, **kwargs)
         if len(chars_info) > 0:
             item = chars_info[-1]
-            text = item[SVGTextContentElement._CHARS_TEXT].rstrip()
-            item[SVGTextContentElement._CHARS_TEXT] = text
+            style = item[SVGTextContentElement._CHARS_STYLE]
+            if style['white-space'] in ['normal', 'nowrap', 'pre-line']:
+                text = item[SVGTextContentElement._CHARS_TEXT].rstrip(' ')
+                item[SVGTextContentElement._CHARS_TEXT] = text
 
             is_render = kwargs.get('is_render', False)
             if is_render:
-- 
2.43.0


From 72a0a0e9a4e274232040f066f97828f2c964d434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:52:46 +0000
Subject: [PATCH 099/103] fix: characters of a tspan are those of all its
 content

---
 svgpy/text.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/svgpy/text.py b/svgpy/text.py
index e2bebf3..131a7f9 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -48,6 +48,11 @@ class SVGTextContentElement(SVGGraphicsElement):
             root, first=True, is_display=True, is_render=True)
         return chars_info
 
+    def _get_own_chars_info(self, chars_info):
+        elements = set(hash(x) for x in self.iter())
+        return [x for x in chars_info
+                if x[SVGTextContentElement._CHARS_ID] in elements]
+
     @staticmethod
     def _get_descendant_chars(element, style_map=None,
                               prev_text=None, first=False, **kwargs):
@@ -629,11 +634,10 @@ class SVGTextContentElement(SVGGraphicsElement):
             return out
         elif local_name in SVGElement.TEXT_CONTENT_CHILD_ELEMENTS:
             out = [x[SVGTextContentElement._CHARS_TEXT]
-                   for x in chars_info
-                   if x[SVGTextContentElement._CHARS_ID] == hash(self)]
+                   for x in self._get_own_chars_info(chars_info)]
             if len(out) == 0:
                 return None
-            return out[0]
+            return ''.join(out)
         return None
 
     def get_nearest_text_element(self):
@@ -695,12 +699,8 @@ class SVGTextContentElement(SVGGraphicsElement):
             for item in iter(chars_info):
                 advance_list += item[SVGTextContentElement._CHARS_ADVANCE_LIST]
         elif local_name in SVGElement.TEXT_CONTENT_CHILD_ELEMENTS:
-            out = [x[SVGTextContentElement._CHARS_ADVANCE_LIST]
-                   for x in chars_info
-                   if x[SVGTextContentElement._CHARS_ID] == hash(self)]
-            if len(out) == 0:
-                return 0
-            advance_list = out[0]
+            for item in self._get_own_chars_info(chars_info):
+                advance_list += item[SVGTextContentElement._CHARS_ADVANCE_LIST]
         else:
             raise NotImplementedError
 
-- 
2.43.0


From 05989f7a200f488c812d0f3e12ebcf901c2dde53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:55:48 +0000
Subject: [PATCH 100/103] fix: positions of characters in and after a tspan

---
 svgpy/text.py | 68 +++++++++++++++++++++------------------------------
 1 file changed, 28 insertions(+), 40 deletions(-)

diff --git a/svgpy/text.py b/svgpy/text.py
index 131a7f9..05999b6 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -214,8 +214,10 @@ class SVGTextContentElement(SVGGraphicsElement):
             tuple[float, float]:
         """
 
-        def _get_inherited_attribute(_element, _style_map, _key,
-                                     _default=None):
+        def _get_attribute_lists(_element, _style_map, _key):
+            # the values of the element and of its ancestors: every list is
+            # indexed by the characters of the element it was specified on
+            _lists = list()
             while _element is not None:
                 if (_element.node_type == Node.ELEMENT_NODE
                         and _element.istext()
@@ -226,17 +228,21 @@ class SVGTextContentElement(SVGGraphicsElement):
                         _style_map[hash(_element)] = _style
                     _value = _style.get(_key)
                     if _value is not None:
-                        return _value
+                        _lists.append(_value)
                 _element = _element.getparent()
-            return _default
+            return _lists
+
+        def _pop_attribute(_lists, _default):
+            _values = [x.pop(0) for x in _lists if len(x) > 0]
+            return _values[0] if len(_values) > 0 else _default
 
         # TODO: support line-breaking and word-breaking.
-        x_list = _get_inherited_attribute(element, style_map, 'x', [])
-        y_list = _get_inherited_attribute(element, style_map, 'y', [])
-        dx_list = _get_inherited_attribute(element, style_map, 'dx', [])
-        dy_list = _get_inherited_attribute(element, style_map, 'dy', [])
-        rotate_list = _get_inherited_attribute(
-            element, style_map, 'rotate', [])
+        x_lists = _get_attribute_lists(element, style_map, 'x')
+        y_lists = _get_attribute_lists(element, style_map, 'y')
+        dx_lists = _get_attribute_lists(element, style_map, 'dx')
+        dy_lists = _get_attribute_lists(element, style_map, 'dy')
+        rotate_lists = _get_attribute_lists(element, style_map, 'rotate')
+        rotate_list = rotate_lists[0] if len(rotate_lists) > 0 else []
 
         style = style_map.get(hash(element))  # computed style
         assert style is not None
@@ -382,20 +388,14 @@ class SVGTextContentElement(SVGGraphicsElement):
                         else:
                             # ligature
                             index = logical_start + offset
-                            if index < len(x_list):
-                                _ = x_list.pop(index)
-                            if index < len(y_list):
-                                _ = y_list.pop(index)
-                            dx_length = len(dx_list)
-                            if index < dx_length:
-                                dx = dx_list.pop(index)
-                                if index < dx_length - 1:
-                                    dx_list[index] += dx
-                            dy_length = len(dy_list)
-                            if index < dy_length:
-                                dy = dy_list.pop(index)
-                                if index < dy_length - 1:
-                                    dy_list[index] += dy
+                            for values in x_lists + y_lists:
+                                if index < len(values):
+                                    _ = values.pop(index)
+                            for values in dx_lists + dy_lists:
+                                if index < len(values):
+                                    value = values.pop(index)
+                                    if index < len(values):
+                                        values[index] += value
                             rotate_length = len(rotate_list)
                             if rotate_length > 1 and index < rotate_length:
                                 _ = rotate_list.pop(index)
@@ -405,22 +405,10 @@ class SVGTextContentElement(SVGGraphicsElement):
                 line_path_data = list()
                 line_bbox = DOMRect()
                 for info, position in zip(infos, positions):
-                    if len(x_list) > 0:
-                        x = x_list.pop(0)
-                    else:
-                        x = current_x
-                    if len(y_list) > 0:
-                        y = y_list.pop(0)
-                    else:
-                        y = current_y
-                    if len(dx_list) > 0:
-                        dx = dx_list.pop(0)
-                    else:
-                        dx = 0
-                    if len(dy_list) > 0:
-                        dy = dy_list.pop(0)
-                    else:
-                        dy = 0
+                    x = _pop_attribute(x_lists, current_x)
+                    y = _pop_attribute(y_lists, current_y)
+                    dx = _pop_attribute(dx_lists, 0)
+                    dy = _pop_attribute(dy_lists, 0)
                     rotate_length = len(rotate_list)
                     if rotate_length == 1:
                         rotate = rotate_list[0]
-- 
2.43.0


From 4f6f6bb0829d6ef9fec4b77a9055e5885b8ae12f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:57:19 +0000
Subject: [PATCH 101/103] fix: white space around the positions of a text

---
 svgpy/text.py | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/svgpy/text.py b/svgpy/text.py
index 05999b6..ff02ed0 100644
--- a/svgpy/text.py
+++ b/svgpy/text.py
@@ -533,7 +533,8 @@ class SVGTextContentElement(SVGGraphicsElement):
                 SVGLength(n,
                           context=self,
                           direction=SVGLength.DIRECTION_HORIZONTAL).value()
-                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_x)
+                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(
+                    _x.strip())
             ]
         geometry['x'] = x
 
@@ -550,7 +551,8 @@ class SVGTextContentElement(SVGGraphicsElement):
                 SVGLength(n,
                           context=self,
                           direction=SVGLength.DIRECTION_VERTICAL).value()
-                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_y)
+                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(
+                    _y.strip())
             ]
         geometry['y'] = y
 
@@ -565,7 +567,8 @@ class SVGTextContentElement(SVGGraphicsElement):
                 SVGLength(n,
                           context=self,
                           direction=SVGLength.DIRECTION_HORIZONTAL).value()
-                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_dx)
+                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(
+                    _dx.strip())
             ]
         geometry['dx'] = dx
 
@@ -580,7 +583,8 @@ class SVGTextContentElement(SVGGraphicsElement):
                 SVGLength(n,
                           context=self,
                           direction=SVGLength.DIRECTION_VERTICAL).value()
-                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_dy)
+                for n in Element.RE_DIGIT_SEQUENCE_SPLITTER.split(
+                    _dy.strip())
             ]
         geometry['dy'] = dy
 
@@ -593,7 +597,8 @@ class SVGTextContentElement(SVGGraphicsElement):
         else:
             rotate = [
                 float(t) for t in
-                Element.RE_DIGIT_SEQUENCE_SPLITTER.split(_rotate)
+                Element.RE_DIGIT_SEQUENCE_SPLITTER.split(
+                    _rotate.strip())
             ]
         geometry['rotate'] = rotate
 
-- 
2.43.0


From 651335e4c5c1eb238581d3dd489f9ed909b75874 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:12:20 +0000
Subject: [PATCH 102/103] fix: the default media type of a base64 data URL
 without one

---
 svgpy/utils.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/svgpy/utils.py b/svgpy/utils.py
index e34f51a..f1eee69 100644
--- a/svgpy/utils.py
+++ b/svgpy/utils.py
@@ -200,14 +200,15 @@ def load(src, encoding=None, **kwargs):
         if end < 0:
             return None, headers
         content_type = pathname[0:end].strip()
-        if len(content_type) == 0:
-            content_type = 'text/plain;charset=US-ASCII'
         data = unquote(pathname[end + 1:].strip())
         parameters = [x.strip() for x in content_type.split(';')]
         if 'base64' in parameters:
             parameters.remove('base64')
             data = base64.b64decode(data)
-        headers['Content-Type'] = ';'.join(parameters)
+        content_type = ';'.join(parameters)
+        if len(content_type) == 0:
+            content_type = 'text/plain;charset=US-ASCII'
+        headers['Content-Type'] = content_type
         return data, headers
 
     with urlopen(url.href, **kwargs) as response:
-- 
2.43.0


From d679c3682badb8614d2dca04b03c9066f86706c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:17:50 +0000
Subject: [PATCH 103/103] fix: relative font sizes and weights are those of the
 element that declares them

---
 svgpy/core.py | 95 +++++++++++++++++++++++++--------------------------
 1 file changed, 46 insertions(+), 49 deletions(-)

diff --git a/svgpy/core.py b/svgpy/core.py
index bcb7476..a8f5027 100644
--- a/svgpy/core.py
+++ b/svgpy/core.py
@@ -27,6 +27,7 @@ from .css.screen import Screen
 from .fontconfig import FontConfig
 from .formatter import format_number_sequence
 from .freetype import FreeType, FTFace
+from .style import get_cascaded_style, get_css_rules
 
 
 class CSSUtils(object):
@@ -84,6 +85,20 @@ class CSSUtils(object):
     _RE_PRECEDING_TAB_WHITESPACE = re.compile(r'(?<=[\r\n])(\x20|\t)+')
     _RE_FOLLOWING_TAB_WHITESPACE = re.compile(r'(\x20|\t)+(?=[\r\n])')
 
+    @staticmethod
+    def _get_declaring_element(element, key):
+        """Returns the element that the value of the inherited property `key`
+        comes from.
+        """
+        css_rules = get_css_rules(element)
+        context = element
+        while context is not None:
+            value = get_cascaded_style(context, css_rules).get(key)
+            if value is not None and value not in ['inherit', 'unset']:
+                return context
+            context = context.getparent()
+        return element
+
     @staticmethod
     def compute_font_size(element, inherited_size=None, inherited_style=None):
         if inherited_style is None:
@@ -108,34 +123,26 @@ class CSSUtils(object):
                 px = CSSUtils._QUIRKS_FONT_SIZE_TABLE[row][column]
             else:
                 px = scale_factor * medium_size
-        elif font_size in ['larger', 'smaller']:
-            # <relative-size>
-            # Value: larger | smaller
-            if inherited_size is None:
-                inherited_size = Font.default_font_size
-            parent_sequence = list()
-            parent = element.getparent()
-            while parent is not None:
-                parent_sequence.insert(0, parent)
-                parent = parent.getparent()
-            for parent in iter(parent_sequence):
-                value = parent.get('font-size')
-                if value is None:
-                    continue
-                elif value in ['larger', 'smaller']:
-                    scale_factor = 1.2 if font_size == 'larger' else 1 / 1.2
-                    inherited_size *= scale_factor
-                else:
-                    inherited_size = CSSUtils.compute_font_size(
-                        parent,
-                        inherited_size,
-                        {'font-size': value})
-            px = inherited_size
         else:
-            # <length> or <percentage>
-            # See https://drafts.csswg.org/css-values-3/#lengths
-            fs = SVGLength(font_size, context=element)
-            px = fs.value()
+            # a relative size is relative to the parent of the element that
+            # declares it, which may be an ancestor
+            context = CSSUtils._get_declaring_element(element, 'font-size')
+            if font_size in ['larger', 'smaller']:
+                # <relative-size>
+                # Value: larger | smaller
+                parent = context.getparent()
+                if parent is not None:
+                    px = CSSUtils.compute_font_size(parent)
+                elif inherited_size is not None:
+                    px = inherited_size
+                else:
+                    px = Font.default_font_size
+                px *= 1.2 if font_size == 'larger' else 1 / 1.2
+            else:
+                # <length> or <percentage>
+                # See https://drafts.csswg.org/css-values-3/#lengths
+                fs = SVGLength(font_size, context=context)
+                px = fs.value()
 
         if px < CSSUtils._MINIMUM_FONT_SIZE:
             px = CSSUtils._MINIMUM_FONT_SIZE
@@ -169,28 +176,18 @@ class CSSUtils(object):
         if font_weight in ['bolder', 'lighter']:
             # <relative-weight>
             # Value: bolder | lighter
-            if inherited_weight is None:
-                inherited_weight = Font.default_font_weight
-            parent_sequence = list()
-            parent = element.getparent()
-            while parent is not None:
-                parent_sequence.insert(0, parent)
-                parent = parent.getparent()
-            for parent in iter(parent_sequence):
-                value = parent.get('font-weight')
-                if value is None:
-                    continue
-                elif value in ['bolder', 'lighter']:
-                    xp = CSSUtils._INHERITED_WEIGHT_LIST
-                    fp = CSSUtils._BOLDER_WEIGHT_LIST if value == 'bolder' \
-                        else CSSUtils._LIGHTER_WEIGHT_LIST
-                    inherited_weight = np.interp(inherited_weight, xp, fp)
-                else:
-                    inherited_weight = CSSUtils.compute_font_weight(
-                        parent,
-                        inherited_weight,
-                        {'font-weight': value})
-            weight = inherited_weight
+            context = CSSUtils._get_declaring_element(element, 'font-weight')
+            parent = context.getparent()
+            if parent is not None:
+                weight = CSSUtils.compute_font_weight(parent)
+            elif inherited_weight is not None:
+                weight = inherited_weight
+            else:
+                weight = Font.default_font_weight
+            xp = CSSUtils._INHERITED_WEIGHT_LIST
+            fp = CSSUtils._BOLDER_WEIGHT_LIST if font_weight == 'bolder' \
+                else CSSUtils._LIGHTER_WEIGHT_LIST
+            weight = np.interp(weight, xp, fp)
         else:
             # <absolute-weight>
             weight = CSSUtils._FONT_WEIGHT_MAP.get(font_weight, font_weight)
-- 
2.43.0

