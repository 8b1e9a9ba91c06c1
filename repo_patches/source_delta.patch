From ef555a1135e613edfcc8b8ca87a43b00fbee6e56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:28 +0000
Subject: [PATCH 01/55] fix: make != the negation of ==, and == symmetric
 between kinds

Containers inherited list.__ne__, which ignores ids and attributes, so
Tier(id='a') != Tier(id='b') was False. Item == Meta and
Meta == MetaChild could hold in one direction only.
---
 xigt/metadata.py | 3 ++-
 xigt/mixins.py   | 4 ++++
 xigt/model.py    | 3 ++-
 3 files changed, 8 insertions(+), 2 deletions(-)

diff --git a/xigt/metadata.py b/xigt/metadata.py
index 9f786d5..c13d407 100644
--- a/xigt/metadata.py
+++ b/xigt/metadata.py
@@ -149,7 +149,8 @@ class Meta(XigtContainerMixin, XigtAttributeMixin):
     def __eq__(self, other):
         try:
             return (
-                self.text == other.text
+                isinstance(other, Meta)
+                and self.text == other.text
                 and XigtContainerMixin.__eq__(self, other)
                 and XigtAttributeMixin.__eq__(self, other)
             )
diff --git a/xigt/mixins.py b/xigt/mixins.py
index 9557ff4..190b76b 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -47,6 +47,10 @@ class XigtContainerMixin(list):
         except AttributeError:
             return False
 
+    def __ne__(self, other):
+        # otherwise list.__ne__ would ignore ids, attributes, etc.
+        return not self == other
+
     def __getitem__(self, obj_id):
         if isinstance(obj_id, (int, slice)):
             return list.__getitem__(self, obj_id)
diff --git a/xigt/model.py b/xigt/model.py
index 014c9ac..9e03600 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -346,7 +346,8 @@ class Item(XigtAttributeMixin, XigtReferenceAttributeMixin):
     def __eq__(self, other):
         try:
             return (
-                self.text == other.text
+                isinstance(other, Item)
+                and self.text == other.text
                 and XigtAttributeMixin.__eq__(self, other)
             )
         except AttributeError:
-- 
2.43.0


From fcbf418a6a97917602f7724818a96e230d937ecb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:47 +0000
Subject: [PATCH 02/55] fix: set the parent on item assignment; rejected
 insertions change nothing

c[i] = x did not make c the parent of x. Rejected duplicates got the
container as their parent (append, insert), or lost the id mapping of
the object they should have replaced (c[i] = x).
---
 xigt/mixins.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 190b76b..c32ed37 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -1,4 +1,5 @@
 
+from operator import index
 import warnings
 
 from xigt.consts import (
@@ -72,9 +73,14 @@ class XigtContainerMixin(list):
         except TypeError:
             idx = int(idx)
             cur_obj = list.__getitem__(self, idx)
+        if self._dict.get(obj.id, cur_obj) is not cur_obj:
+            raise XigtError(
+                'Id "{}" already exists in collection.'.format(obj.id),
+            )
         if cur_obj.id is not None:
             del self._dict[cur_obj.id]
         self._create_id_mapping(obj)
+        obj._parent = self._container
         list.__setitem__(self, idx, obj)
 
     def __delitem__(self, obj_id):
@@ -106,14 +112,15 @@ class XigtContainerMixin(list):
 
     def append(self, obj):
         self._assert_type(obj)
-        obj._parent = self._container
         self._create_id_mapping(obj)
+        obj._parent = self._container
         list.append(self, obj)
 
     def insert(self, i, obj):
         self._assert_type(obj)
-        obj._parent = self._container
+        i = index(i)  # fail on bad positions before changing anything
         self._create_id_mapping(obj)
+        obj._parent = self._container
         list.insert(self, i, obj)
 
     def extend(self, objs):
-- 
2.43.0


From de5f49bc52480e08d42a51700e996bf73ac937e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:16:48 +0000
Subject: [PATCH 03/55] fix: delete the selected object, and keep the id index
 in step

del c[i] removed the first object equal to c[i], removing an object that
was not in the container dropped the id of another, and pop() did not
update the id index at all.
---
 xigt/mixins.py | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index c32ed37..23d5ea6 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -86,7 +86,14 @@ class XigtContainerMixin(list):
     def __delitem__(self, obj_id):
         # NOTE: this method is destructive. check for broken refs here?
         obj = self[obj_id]
-        self.remove(obj)
+        # other objects may be equal, so find the position of this one
+        if isinstance(obj_id, slice):
+            for i in sorted(range(len(self))[obj_id], reverse=True):
+                self.pop(i)
+        elif isinstance(obj_id, int):
+            self.pop(obj_id)
+        else:
+            self.pop(next(i for i, x in enumerate(self) if x is obj))
 
     def get(self, obj_id, default=None):
         try:
@@ -129,9 +136,13 @@ class XigtContainerMixin(list):
 
     def remove(self, obj):
         # NOTE: this method is destructive. check for broken refs here?
-        if obj.id is not None:
+        self.pop(self.index(obj))
+
+    def pop(self, i=-1):
+        obj = list.pop(self, i)
+        if self._dict.get(obj.id) is obj:
             del self._dict[obj.id]
-        list.remove(self, obj)
+        return obj
 
     def clear(self):
         self._dict.clear()
-- 
2.43.0


From c4007ef5e336aaeaef08092f2acbba65e604a9ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:12 +0000
Subject: [PATCH 04/55] fix: replace or extend container contents completely or
 not at all

obj.metadata = obj.metadata (or an assignment of anything computed lazily
from the current contents) lost everything, invalid assignments cleared
the container, += bypassed the type checks, the id index and the
parents, and a rejected extend() left some of the objects behind.
---
 xigt/metadata.py | 12 ++++--------
 xigt/mixins.py   | 25 +++++++++++++++++++++++++
 xigt/model.py    |  9 +++------
 3 files changed, 32 insertions(+), 14 deletions(-)

diff --git a/xigt/metadata.py b/xigt/metadata.py
index c13d407..3c51dca 100644
--- a/xigt/metadata.py
+++ b/xigt/metadata.py
@@ -38,8 +38,7 @@ class XigtMetadataMixin(object):
         if isinstance(value, Metadata):
             raise XigtError('The metadata attribute must be a sequence '
                             'of Metadata objects.')
-        self._md.clear()
-        self._md.extend(value)
+        self._md._replace_all(value)
 
     # possibly pending deprecation
 
@@ -113,8 +112,7 @@ class Metadata(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @metas.setter
     def metas(self, value):
-        self.clear()
-        self.extend(value or [])
+        self._replace_all(value)
 
     # deprecated properties
 
@@ -162,8 +160,7 @@ class Meta(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @children.setter
     def children(self, value):
-        self.clear()
-        self.extend(value or [])
+        self._replace_all(value)
 
 
 class MetaChild(XigtContainerMixin, XigtAttributeMixin):
@@ -203,5 +200,4 @@ class MetaChild(XigtContainerMixin, XigtAttributeMixin):
         return list(self)
     @children.setter
     def children(self, value):
-        self.clear()
-        self.extend(value or [])
+        self._replace_all(value)
diff --git a/xigt/mixins.py b/xigt/mixins.py
index 23d5ea6..3cc2757 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -131,9 +131,34 @@ class XigtContainerMixin(list):
         list.insert(self, i, obj)
 
     def extend(self, objs):
+        objs = list(objs)
+        self._assert_insertable(objs, self._dict)
         for obj in objs:
             self.append(obj)
 
+    def __iadd__(self, objs):
+        self.extend(objs)
+        return self
+
+    def _replace_all(self, objs):
+        # objs may be computed from the current contents, so make it a
+        # list (and make sure all can be added) before clearing them
+        objs = list(objs or [])
+        self._assert_insertable(objs, [])
+        self.clear()
+        self.extend(objs)
+
+    def _assert_insertable(self, objs, ids):
+        ids = set(ids)
+        for obj in objs:
+            self._assert_type(obj)
+            if obj.id is not None:
+                if obj.id in ids:
+                    raise XigtError(
+                        'Id "{}" already exists in collection.'.format(obj.id),
+                    )
+                ids.add(obj.id)
+
     def remove(self, obj):
         # NOTE: this method is destructive. check for broken refs here?
         self.pop(self.index(obj))
diff --git a/xigt/model.py b/xigt/model.py
index 9e03600..7ecc40e 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -111,8 +111,7 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         return list(self)
     @igts.setter
     def igts(self, value):
-        self.clear()
-        self.extend(value or [])
+        self._replace_all(value)
 
 
 class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
@@ -197,8 +196,7 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         return list(self)
     @tiers.setter
     def tiers(self, value):
-        self.clear()
-        self.extend(value or [])
+        self._replace_all(value)
 
     def get_item(self, item_id, default=None):
         return self._itemdict.get(item_id, default)
@@ -298,8 +296,7 @@ class Tier(XigtContainerMixin, XigtAttributeMixin,
         return list(self)
     @items.setter
     def items(self, value):
-        self.clear()
-        self.extend(value or [])
+        self._replace_all(value)
 
     def allowed_reference_attributes(self):
         # tiers get _tier_refattrs[tier.type]; if a type is not
-- 
2.43.0


From daf522bfec67a1ea85720d4759e6286b6fa89d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:27 +0000
Subject: [PATCH 05/55] fix: inherit attributes looked up with a namespace

The already qualified key was qualified again on the parent, so that
get_attribute(key, namespace=ns, inherit=True) never found anything
above the object itself.
---
 xigt/mixins.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 3cc2757..0ddbdd1 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -248,9 +248,8 @@ class XigtAttributeMixin(object):
             return self.attributes[key]
         except KeyError:
             if inherit and _has_parent(self):
-                return self._parent.get_attribute(
-                    key, default, inherit, namespace=namespace
-                )
+                # key is already qualified with the namespace
+                return self._parent.get_attribute(key, default, inherit)
             else:
                 return default
 
-- 
2.43.0


From 0784989dc8e176055f09cccd879e9b5693ffdd5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:28 +0000
Subject: [PATCH 06/55] fix: rebuild the item index from the current items only

refresh_indices() kept removed items, warned about items without ids, and
listed referrers twice if their expression mentions an id twice.
---
 xigt/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xigt/model.py b/xigt/model.py
index 7ecc40e..e18cc5b 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -154,9 +154,11 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
 
         xs = [i for t in self.tiers for i in t.items]
         if items:
-            idict = self._itemdict
+            self._itemdict = idict = {}
             for item in xs:
                 i_id = item.id
+                if i_id is None:
+                    continue
                 if idict.get(i_id, item) != item:
                     warnings.warn(
                         'Item "{}" already exists in Igt.'.format(i_id),
@@ -183,7 +185,7 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
                 inv_ids_map = defaultdict(lambda: defaultdict(list))
                 for obj_id, ra_map in ids_map.items():
                     for refattr, ref_ids in ra_map.items():
-                        for ref_id in ref_ids:
+                        for ref_id in set(ref_ids):
                             inv_ids_map[ref_id][refattr].append(obj_id)
                 self._referrer_cache = inv_ids_map
 
-- 
2.43.0


From e811806ec5f0f3fcb6b9c6d70978c6026bef2f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:17:45 +0000
Subject: [PATCH 07/55] fix: sort tiers with cyclic or dangling references, or
 without ids

sort_tiers() did not stop on cyclic references, failed on references to
unavailable tiers, and confused all tiers without ids with each other.
---
 xigt/model.py | 30 ++++++++++++++++++++----------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/xigt/model.py b/xigt/model.py
index e18cc5b..7d125f8 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -219,25 +219,35 @@ class Igt(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
             return ref.referrers(self, id, refattrs=refattrs)
 
     def sort_tiers(self, refattrs=(SEGMENTATION, ALIGNMENT, CONTENT)):
-        idx = {t.id: i+1 for i, t in enumerate(self)}  # initial index
-        pr = {}  # prioritized referent
-        for t in self:
+        idx = {t.id: i for i, t in enumerate(self)}  # initial index
+        pr = {}  # prioritized referent (by initial index)
+        for x, t in enumerate(self):
             ra_i = next(
                 ((ra, i) for i, ra in enumerate(refattrs)
                  if ra in t.attributes),
                 None
             )
             if ra_i is not None:
-                pr[t.id] = (t.get_attribute(ra_i[0]), ra_i[1])
+                refids = ref.ids(t.get_attribute(ra_i[0]))
+                if refids and refids[0] in idx:  # ignore dangling references
+                    pr[x] = (idx[refids[0]], ra_i[1])
+        for x in range(len(self)):  # ignore references that form a cycle
+            path = []
+            while x in pr and x not in path:
+                path.append(x)
+                x = pr[x][0]
+            if x in path:
+                for y in path[path.index(x):]:
+                    del pr[y]
         dfi = {}  # depth-first index
-        for t in self:
-            key = [(idx[t.id],0)]  # default value
-            tmp = pr.get(t.id)
+        for x, t in enumerate(self):
+            key = [(x, 0)]  # default value
+            tmp = pr.get(x)
             while tmp:  # iterative depth first
-                key.append((idx[tmp[0]], tmp[1]))
+                key.append(tmp)
                 tmp = pr.get(tmp[0])
-            dfi[t.id] = tuple(reversed(key))  # highest ancestor first
-        self.sort(key=lambda t: dfi[t.id])
+            dfi[id(t)] = tuple(reversed(key))  # highest ancestor first
+        self.sort(key=lambda t: dfi[id(t)])
 
 
 class Tier(XigtContainerMixin, XigtAttributeMixin,
-- 
2.43.0


From c954f60ec0958d125421084d09eccf29f1c54fe0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:05 +0000
Subject: [PATCH 08/55] fix: yield loaded igts again when re-iterating an
 incremental corpus

An iteration that was abandoned, or runs along with another one, consumed
the igts it had loaded, so that later iterations skipped them.
---
 xigt/model.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/xigt/model.py b/xigt/model.py
index 7d125f8..d5b9e40 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -78,7 +78,7 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         if mode == FULL:
             self.extend(igts or [])
         else:
-            self._generator = igts
+            self._generator = iter([] if igts is None else igts)
 
     def __repr__(self):
         return '<XigtCorpus object (id: {}) with {} Igts at {}>'.format(
@@ -96,13 +96,22 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         if self.mode == FULL:
             for igt in XigtContainerMixin.__iter__(self):
                 yield igt
+        elif self.mode == INCREMENTAL:
+            # some igts may have been loaded before, or by another iterator
+            i = 0
+            while True:
+                if i >= len(self):
+                    igt = next(self._generator, None)
+                    if igt is None:
+                        break
+                    self.append(igt)
+                yield self[i]
+                i += 1
+            self.mode = FULL
         else:
             for igt in self._generator:
-                if self.mode == INCREMENTAL:
-                    self.add(igt)
-                else:
-                    # don't add, but set the parent
-                    igt._parent = self
+                # don't add, but set the parent
+                igt._parent = self
                 yield igt
             self.mode = FULL
 
-- 
2.43.0


From 80c54219cc18d9df2ddeae7b543468c7eaaaba02 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:23 +0000
Subject: [PATCH 09/55] fix: take the igts of a lazily loaded corpus

XigtCorpus(igts=xc) and xc2.igts = xc took nothing from an incremental
or transient corpus, because its length is 0 before iterating over it.
---
 xigt/mixins.py | 2 +-
 xigt/model.py  | 3 ++-
 2 files changed, 3 insertions(+), 2 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 0ddbdd1..42b703a 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -143,7 +143,7 @@ class XigtContainerMixin(list):
     def _replace_all(self, objs):
         # objs may be computed from the current contents, so make it a
         # list (and make sure all can be added) before clearing them
-        objs = list(objs or [])
+        objs = [] if objs is None else list(objs)
         self._assert_insertable(objs, [])
         self.clear()
         self.extend(objs)
diff --git a/xigt/model.py b/xigt/model.py
index d5b9e40..26dbce5 100644
--- a/xigt/model.py
+++ b/xigt/model.py
@@ -76,7 +76,8 @@ class XigtCorpus(XigtContainerMixin, XigtAttributeMixin, XigtMetadataMixin):
         XigtMetadataMixin.__init__(self, metadata)
         self.mode = mode
         if mode == FULL:
-            self.extend(igts or [])
+            # not "igts or []", as a lazily loaded corpus is empty at first
+            self.extend([] if igts is None else igts)
         else:
             self._generator = iter([] if igts is None else igts)
 
-- 
2.43.0


From a2fb2fde0ec50bfcc2ad84e2da23aa8dfd79c465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:47 +0000
Subject: [PATCH 10/55] fix: decode the type of a corpus, and the id and type
 of metadata children

The type of <xigt-corpus> became a mere attribute, and id and type
attributes on elements inside <meta> were lost.
---
 xigt/codecs/xigtxml.py | 5 +++--
 xigt/xigtpath.py       | 2 ++
 2 files changed, 5 insertions(+), 2 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index da41112..2aaa4b7 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -241,7 +241,8 @@ def default_decode_xigtcorpus(elem, igts=None, mode='full'):
     assert tag == 'xigt-corpus'
     return XigtCorpus(
         id=elem.get('id'),
-        attributes=get_attributes(elem, ignore=('id',)),
+        type=elem.get('type'),
+        attributes=get_attributes(elem, ignore=('id', 'type')),
         metadata=[decode_metadata(md) for md in elem.findall('metadata')],
         # NOTE: possible bug here; does nsiterparse run with elem.findall?
         igts=igts or [decode_igt(igt) for igt in elem.findall('igt')],
@@ -340,7 +341,7 @@ def default_decode_metachild(elem):
     text = elem.text or ''
     mc = MetaChild(
         tag,
-        attributes=get_attributes(elem, ignore=('id', 'type')),
+        attributes=get_attributes(elem),
         text=text if text.strip() else None,
         children=[decode_metachild(mc) for mc in elem],
         namespace=ns,
diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 020c73b..0c95385 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -199,6 +199,8 @@ def _find_attr(obj, attr):
     # pseudo-attributes (members in the model, attrs in the xml and path)
     if attr in ('type', 'id', 'name'):
         val = getattr(obj, attr, None)
+        if val is None:
+            val = obj.attributes.get(attr)  # e.g., on MetaChild objects
         if val is not None:
             vals.append(val)
     else:
-- 
2.43.0


From df96bae889dd7c29a41f9bc2cd5a986ad9275056 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:18:49 +0000
Subject: [PATCH 11/55] fix: find igts by their position in the document, and
 read it to its end

Elements called igt or xigt-corpus inside of metadata were taken for the
real ones, anything after the root element was accepted, and documents
with another root element failed with StopIteration or the like.
---
 xigt/codecs/xigtxml.py | 32 ++++++++++++++++----------------
 1 file changed, 16 insertions(+), 16 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 2aaa4b7..987cef1 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -198,31 +198,31 @@ def ns_iterparse(fh, events=('start', 'end')):
 
 # Decoding #############################################################
 
-def iter_elements(tag, events, root, break_on=None):
-    if break_on is None:
-        break_on = []
-    event, elem = next(events)
-    while (event, elem.tag) not in break_on:
-        if event == 'end' and elem.tag == tag:
+def iter_elements(tag, events, root):
+    # yield the children of root with the given tag. The first child has
+    # been started already.
+    depth = 1
+    # go on after the root element has ended, so that errors are noticed
+    for event, elem in events:
+        depth += 1 if event == 'start' else -1
+        if event == 'end' and depth == 0 and elem.tag == tag:
             yield elem
             root.clear()  # free memory after we're done with an element
-        event, elem = next(events)
 
 
 def default_decode(events, mode='full'):
     """Decode a XigtCorpus element."""
     event, elem = next(events)
     root = elem  # store root for later instantiation
-    while (event, elem.tag) not in [('start', 'igt'), ('end', 'xigt-corpus')]:
-        event, elem = next(events)
+    if root.tag != 'xigt-corpus':
+        raise XigtError('Not a Xigt corpus: <{}>'.format(root.tag))
     igts = None
-    if event == 'start' and elem.tag == 'igt':
-        igts = (
-            decode_igt(e)
-            for e in iter_elements(
-                'igt', events, root, break_on=[('end', 'xigt-corpus')]
-            )
-        )
+    depth = 0  # elements inside metadata may be called "igt", too
+    for event, elem in events:
+        if event == 'start' and depth == 0 and elem.tag == 'igt':
+            igts = (decode_igt(e) for e in iter_elements('igt', events, root))
+            break
+        depth += 1 if event == 'start' else -1
     xc = decode_xigtcorpus(root, igts=igts, mode=mode)
     return xc
 
-- 
2.43.0


From a67fe447d26149efdedf71f8e7b5e29b615987b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:19:44 +0000
Subject: [PATCH 12/55] fix: declare all namespaces that are used in written
 XML

Attributes with a well-known but undeclared namespace made the output
ill-formed, those with any other one raised a KeyError, the namespace of
a metadata child was dropped, and default namespaces were written with
an empty prefix.
---
 xigt/codecs/xigtxml.py | 49 ++++++++++++++++++++++++++----------------
 1 file changed, 30 insertions(+), 19 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 987cef1..ed3ee50 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -355,34 +355,45 @@ def default_decode_metachild(elem):
 ##############################################################################
 # Encoding
 
+def _qualify(uri, name, nsmap, default=False):
+    # add a prefix to name. If nsmap has none for uri, back off to the
+    # default set or make one, and add it to nsmap (to be declared)
+    prefixes = [pre for pre in nsmap
+                if nsmap[pre] == uri and (pre or default)]
+    if _namespace_map.get(uri) == 'xml':
+        prefixes = ['xml']  # always declared
+    if not prefixes:
+        prefixes = [_namespace_map.get(uri, 'ns0')]
+        while prefixes[0] in nsmap:
+            prefixes = ['ns%d' % len(prefixes)] + prefixes
+        nsmap[prefixes[0]] = uri
+    return '{}:{}'.format(prefixes[0], name) if prefixes[0] else name
+
+
 # thanks: http://effbot.org/zone/element-namespaces.htm
 def _build_elem(tag, obj, nscontext):
     ns = getattr(obj, 'namespace', None)
-    revmap = dict((v, k) for k, v in getattr(obj, 'nsmap', {}).items())
-    if revmap.get(ns) is not None:
-        tag = '{}:{}'.format(revmap[ns], tag)
+    nsmap = dict(getattr(obj, 'nsmap', {}))
+    if ns and (ns in nsmap.values() or isinstance(obj, MetaChild)):
+        tag = _qualify(ns, tag, nsmap, default=True)
+    attributes = []
+    for attr, val in getattr(obj, 'attributes', {}).items():
+        uri, attr = _qname_split(attr)
+        if uri:
+            attr = _qualify(uri, attr, nsmap)
+        attributes.append((attr, val))
     e = Element(tag)
     # element attributes (including namespaces)
-    if hasattr(obj, 'nsmap'):
-        for pre, uri in obj.nsmap.items():
-            if nscontext.get(pre) != uri:
-                e.set(_QName('xmlns:%s' % pre, sortkey=xigt_attrsort), uri)
+    for pre, uri in nsmap.items():
+        if nscontext.get(pre) != uri:
+            attr = 'xmlns:%s' % pre if pre else 'xmlns'
+            e.set(_QName(attr, sortkey=xigt_attrsort), uri)
     if getattr(obj, 'id') is not None:
         e.set(_QName('id', sortkey=xigt_attrsort), obj.id)
     if getattr(obj, 'type') is not None:
         e.set(_QName('type', sortkey=xigt_attrsort), obj.type)
-    if hasattr(obj, 'attributes'):
-        for attr, val in obj.attributes.items():
-            uri, attr = _qname_split(attr)
-            if uri:
-                # get the prefix from the nsmap,
-                # backing off to the default set
-                try:
-                    pre = revmap[uri]
-                except KeyError:
-                    pre = _namespace_map[uri]
-                attr = '{}:{}'.format(pre, attr)
-            e.set(_QName(attr, sortkey=xigt_attrsort), val)
+    for attr, val in attributes:
+        e.set(_QName(attr, sortkey=xigt_attrsort), val)
     return e
 
 
-- 
2.43.0


From eb40b1cee1345f94c3ffd414ff9e6ec1ca19eb1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:02 +0000
Subject: [PATCH 13/55] fix: let loads() read what dumps() writes in any
 encoding

loads(dumps(xc, encoding='utf-16')) failed, as all byte strings were
decoded as UTF-8 regardless of their XML declaration.
---
 xigt/codecs/xigtxml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index ed3ee50..29d3533 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -1,5 +1,5 @@
 
-from io import StringIO
+from io import BytesIO, StringIO
 from xml.etree.ElementTree import (
     tostring,
     iterparse,
@@ -56,7 +56,8 @@ def load(fh, mode='full'):
 
 
 def loads(s):
-    if hasattr(s, 'decode'): s = s.decode('utf-8')
+    if hasattr(s, 'decode'):
+        return load(BytesIO(s))  # the parser determines the encoding
     return load(StringIO(s))
 
 
-- 
2.43.0


From cc28c8dcc86f40b7e0fc1afaf95a387ce2864012 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:27 +0000
Subject: [PATCH 14/55] fix: do not empty an existing file if the corpus cannot
 be serialized

dump() opened the file for writing first, so that, e.g., a non-string
item text destroyed the corpus that was in the file.
---
 xigt/codecs/xigtjson.py |  7 ++++---
 xigt/codecs/xigtxml.py  | 11 +++++++++--
 2 files changed, 13 insertions(+), 5 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 557054f..3090d59 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -26,12 +26,13 @@ def dump(f, xc, encoding='utf-8', indent=2):
         raise XigtError(
             'Second argument of dump() must be an instance of XigtCorpus.'
         )
-    data = encode(xc)
+    # raise errors in serialization before the file is opened (and emptied)
+    data = json.dumps(encode(xc), indent=indent)
     if hasattr(f, 'write'):
-        json.dump(data, f, indent=indent)
+        f.write(data)
     else:
         with open(f, 'w') as fh:
-            json.dump(data, fh, indent=indent)
+            fh.write(data)
 
 def dumps(xc, encoding='unicode', indent=2):
     if not isinstance(xc, XigtCorpus):
diff --git a/xigt/codecs/xigtxml.py b/xigt/codecs/xigtxml.py
index 29d3533..f5a905e 100644
--- a/xigt/codecs/xigtxml.py
+++ b/xigt/codecs/xigtxml.py
@@ -4,7 +4,6 @@ from xml.etree.ElementTree import (
     tostring,
     iterparse,
     Element,
-    ElementTree,
     QName
 )
 # this is not part of the public API, so be careful about importing it
@@ -70,7 +69,15 @@ def dump(f, xc, encoding='utf-8', indent=2):
         f = f.buffer
     root = _build_corpus(xc)
     _indent(root, indent=indent)
-    ElementTree(root).write(f, encoding=encoding)
+    # raise errors in serialization before the file is opened (and emptied)
+    data = _tostring(root, encoding=encoding)
+    if hasattr(f, 'write'):
+        f.write(data)
+    else:
+        if encoding == 'unicode':
+            data = data.encode('utf-8')
+        with open(f, 'wb') as fh:
+            fh.write(data)
 
 
 def dumps(xc, encoding='unicode', indent=2):
-- 
2.43.0


From ee2a851f6ec2d0243911d7b3a17452267fa8e562 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:47 +0000
Subject: [PATCH 15/55] fix: keep empty item texts, empty types and the corpus
 type in XigtJSON

---
 xigt/codecs/xigtjson.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index 3090d59..f860fe6 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -62,6 +62,7 @@ def decode(obj, mode='full', nsmap=None):
     nsmap = active_namespaces(obj, nsmap)
     return XigtCorpus(
         id=obj.get('id'),
+        type=obj.get('type'),
         attributes=obj.get('attributes', {}),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
@@ -190,7 +191,7 @@ def _make_obj(x, nscontext=None):
     nsmap = dict(set(active_nsmap.items()).difference(nscontext.items()))
     obj = {}
     if x.id: obj['id'] = x.id
-    if x.type: obj['type'] = x.type
+    if x.type is not None: obj['type'] = x.type
     # might need to re-add prefixes to namespaced attribute keys
     if x.attributes:
         attrs = {}
@@ -254,6 +255,6 @@ def encode_tier(tier, nscontext=None):
 
 def encode_item(item, nscontext=None):
     obj, ns = _make_obj(item, nscontext)
-    if item.text: obj['text'] = item.text
+    if item.text is not None: obj['text'] = item.text
     return obj
 
-- 
2.43.0


From 24e6d5230b6112b03b8b67bbc8144656962f3f25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:20:48 +0000
Subject: [PATCH 16/55] fix: restore namespaces when reading XigtJSON

Attributes written as prefix:name were not mapped back to {uri}name, so
that they could not be found by namespace and changed when converted to
XML; an object with its own prefixes lost those of its parents; and all
threads shared one prefix mapping.
---
 xigt/codecs/xigtjson.py | 49 ++++++++++++++++++++++++++---------------
 1 file changed, 31 insertions(+), 18 deletions(-)

diff --git a/xigt/codecs/xigtjson.py b/xigt/codecs/xigtjson.py
index f860fe6..0853607 100644
--- a/xigt/codecs/xigtjson.py
+++ b/xigt/codecs/xigtjson.py
@@ -63,14 +63,14 @@ def decode(obj, mode='full', nsmap=None):
     return XigtCorpus(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=get_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         igts=[decode_igt(igt, nsmap)
               for igt in obj.get('igts', [])],
         mode=mode,
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
 
 def decode_igt(obj, nsmap=None):
@@ -78,13 +78,13 @@ def decode_igt(obj, nsmap=None):
     igt = Igt(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=get_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         tiers=[decode_tier(tier, nsmap)
                for tier in obj.get('tiers', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return igt
 
@@ -94,13 +94,13 @@ def decode_tier(obj, nsmap=None):
     tier = Tier(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=get_attributes(obj, nsmap),
         metadata=[decode_metadata(md, nsmap)
                   for md in obj.get('metadata', [])],
         items=[decode_item(item, nsmap)
                for item in obj.get('items', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return tier
 
@@ -110,10 +110,10 @@ def decode_item(obj, nsmap=None):
     item = Item(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=get_attributes(obj, nsmap),
         text=obj.get('text'),
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return item
 
@@ -123,11 +123,11 @@ def decode_metadata(obj, nsmap=None):
     metadata = Metadata(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=get_attributes(obj, nsmap),
         metas=[decode_meta(meta, nsmap)
                for meta in obj.get('metas', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return metadata
 
@@ -140,12 +140,12 @@ def decode_meta(obj, nsmap=None):
     meta = Meta(
         id=obj.get('id'),
         type=obj.get('type'),
-        attributes=obj.get('attributes', {}),
+        attributes=get_attributes(obj, nsmap),
         text=obj.get('text'),
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
         namespace=obj.get('namespace'),
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return meta
 
@@ -162,16 +162,27 @@ def decode_metachild(obj, nsmap=None):
             namespace = nsmap[namespace]
     mc = MetaChild(
         name,
-        attributes=obj.get('attributes', {}),
+        attributes=get_attributes(obj, nsmap),
         text=obj.get('text'),
         children=[decode_metachild(mc, nsmap)
                   for mc in obj.get('children', [])],
         namespace=namespace,
-        nsmap=obj.get('namespaces')
+        nsmap=nsmap if 'namespaces' in obj else None
     )
     return mc
 
 
+def get_attributes(obj, nsmap):
+    # replace the prefixes that were added in encoding
+    attrs = {}
+    for k, v in obj.get('attributes', {}).items():
+        prefix, key = ns_split(k)
+        if not k.startswith('{') and prefix in nsmap:
+            k = '{%s}%s' % (nsmap[prefix], key)
+        attrs[k] = v
+    return attrs
+
+
 def active_namespaces(obj, nsmap):
     nsmap = {} if nsmap is None else dict(nsmap)
     nsmap.update(obj.get('namespaces', {}))
@@ -180,15 +191,16 @@ def active_namespaces(obj, nsmap):
 
 # Encoding #############################################################
 
-inv_nsmap = {}
+def _invert(nsmap):
+    return dict((uri, pre) for pre, uri in nsmap.items())
 
 def _make_obj(x, nscontext=None):
     if nscontext is None: nscontext = {}
     active_nsmap = dict(nscontext)
     active_nsmap.update(x.nsmap)
-    inv_nsmap.clear()
-    inv_nsmap.update((uri, pre) for pre, uri in active_nsmap.items())
-    nsmap = dict(set(active_nsmap.items()).difference(nscontext.items()))
+    inv_nsmap = _invert(active_nsmap)
+    nsmap = dict((pre, uri) for pre, uri in active_nsmap.items()
+                 if nscontext.get(pre) != uri)
     obj = {}
     if x.id: obj['id'] = x.id
     if x.type is not None: obj['type'] = x.type
@@ -229,6 +241,7 @@ def encode_meta(m, nscontext=None):
 
 def encode_metachild(mc, nscontext=None):
     obj, ns = _make_obj(mc, nscontext)
+    inv_nsmap = _invert(ns)
     if obj.get('namespace') in inv_nsmap:
         obj['name'] = '{}:{}'.format(inv_nsmap[obj['namespace']], mc.name)
         del obj['namespace']
-- 
2.43.0


From e11a28fe0d5149e9e8676de0e2136a419a88f1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:01 +0000
Subject: [PATCH 17/55] fix: remember visited tiers, not the characters of
 their ids

ancestors() did not stop on cycles of tiers with longer ids, and stopped
too early if a tier id was a character of an earlier one.
---
 xigt/query.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/query.py b/xigt/query.py
index d25c540..0f83486 100644
--- a/xigt/query.py
+++ b/xigt/query.py
@@ -41,7 +41,7 @@ def ancestors(obj, refattrs=(ALIGNMENT, SEGMENTATION)):
         # cycle detection; break if we've now encountered something twice
         if reftier.id in visited:
             break
-        visited.update(reftier.id)
+        visited.add(reftier.id)
         tier = reftier
         items = refitems
 
-- 
2.43.0


From 287577515ba90dfde2d697a78c26b3b3a00a2060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:21 +0000
Subject: [PATCH 18/55] fix: evaluate XigtPath predicates without a comparison

[path] raised a TypeError.
---
 xigt/xigtpath.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 0c95385..e0a7a9b 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -255,7 +255,7 @@ def _make_predicate_test(steps):
         subpath.append(steps.popleft())
     subpath = ''.join(subpath)  # ugly hack so findall() works
     if steps[0] == ']':
-        predtest = lambda obj: any(bool(findall(obj, subpath)))
+        predtest = lambda obj: any(v is not None for v in findall(obj, subpath))
     elif steps[0] in ('=', '!='):
         cmp = steps.popleft()
         val = steps.popleft().strip('"')
-- 
2.43.0


From 7e9f83f129a6ef4f2a462947f8501d4b7deb8d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:22 +0000
Subject: [PATCH 19/55] fix: respect namespaces and wildcards after // in
 XigtPaths

//ns:name ignored the namespace below the context node, and //* found
nothing.
---
 xigt/xigtpath.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index e0a7a9b..37fe72c 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -223,8 +223,12 @@ def _find_descendant_or_self(obj, name):
         objname = obj.name
     else:
         objname = obj.__class__.__name__.lower()
-    if (namespace is None or obj.namespace == namespace) and objname == name:
+    if ((namespace is None
+         or obj.namespace == obj.nsmap.get(namespace, namespace))
+            and name in ('*', objname)):
         yield obj
+    if namespace is not None:
+        name = '{}:{}'.format(namespace, name)
     for child in _find_child(obj, '*'):
         for desc in _find_descendant_or_self(child, name):
             yield desc
-- 
2.43.0


From 8ac58ac9391a854a446c378c4fc2068b56f457c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:21:23 +0000
Subject: [PATCH 20/55] fix: tokenize names, parameters and strings in
 XigtPaths

Names like "textual" were split after the name of a function, strings
after whitespace or a comma were not recognized, so that functions took
only one parameter, and escaped quotes in strings stayed escaped.
---
 xigt/xigtpath.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 37fe72c..7445b0a 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -40,13 +40,20 @@ xp_tokenizer_re = re.compile(
     r'\(|\)|'  # groups
     r'\||'  # union
     r'!=|=|'  # comparisons
-    r'(?:text|value|referent|referrer)|'
-    r'\*|[^.\/\[\]!=|()]+'  # .., *, igt, tier, item, etc.
+    r'(?:text|value|referent|referrer)(?=\s*\()|'
+    r',|'  # function parameters
+    r'\s+|'
+    r'\*|[^.\/\[\]!=|(),"\s][^.\/\[\]!=|()]*'  # .., *, igt, tier, item, etc.
 )
 
 def tokenize(path):
     return [t.strip() for t in xp_tokenizer_re.findall(path) if t.strip()]
 
+def _unquote(token):
+    if token.startswith('"'):
+        return re.sub(r'\\(["\\])', r'\1', token[1:-1])
+    return token
+
 def find(obj, path):
     return next(iterfind(obj, path), None)
 
@@ -155,7 +162,7 @@ def _function(obj, func, args):
         find_refs = _find_referent if func == 'referent' else _find_referrer
         refattrs = None
         if args:
-            refattrs = [ra.strip('"') for ra in args if ra != ',']
+            refattrs = [_unquote(ra) for ra in args if ra != ',']
         results = find_refs(obj, refattrs)
     for result in results:
         yield result
@@ -262,7 +269,7 @@ def _make_predicate_test(steps):
         predtest = lambda obj: any(v is not None for v in findall(obj, subpath))
     elif steps[0] in ('=', '!='):
         cmp = steps.popleft()
-        val = steps.popleft().strip('"')
+        val = _unquote(steps.popleft())
         if cmp == '=':
             predtest = lambda obj: any(v==val for v in findall(obj, subpath))
         elif cmp == '!=':
-- 
2.43.0


From 87e5a25c3d423998babdc7cd772d9858ad83fd15 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:09 +0000
Subject: [PATCH 21/55] fix: let .. select nothing where there is no parent

---
 xigt/xigtpath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 7445b0a..ef6cfe4 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -127,7 +127,8 @@ def _step(objs, steps):
             attr = steps.popleft()
             results = (res for obj in objs for res in _find_attr(obj, attr))
         elif step == '..':
-            results = (obj._parent for obj in objs)
+            parents = (getattr(obj, '_parent', None) for obj in objs)
+            results = (obj for obj in parents if obj is not None)
         elif step == '.':
             results = objs
         # elif steps and steps[0] == '::':
-- 
2.43.0


From fa687e83ce2867844966556d64c853e1c32766df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:11 +0000
Subject: [PATCH 22/55] fix: evaluate groups without results, and steps after a
 group

A group consumed the rest of the path as it was evaluated, which failed
if there was nothing to evaluate it on, and steps or predicates after a
group at the start of a path were ignored.
---
 xigt/xigtpath.py | 43 +++++++++++++++++++++----------------------
 1 file changed, 21 insertions(+), 22 deletions(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index ef6cfe4..71d3d3c 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -77,10 +77,7 @@ def iterfind(obj, path):
         yield result
 
 def _expr(objs, steps):
-    if steps[0] == '(':
-        steps.popleft()
-        results = _disjunction(objs, steps)
-    elif steps[0] in ('/', '//'):
+    if steps[0] in ('/', '//'):
         if steps[0] == '/':
             steps.popleft()
         results = _step([_get_corpus(objs[0])], steps)
@@ -90,25 +87,27 @@ def _expr(objs, steps):
         yield result
 
 def _disjunction(objs, steps):
-    results = []
-    # NOTE: on the first pass, steps is the original deque, so it is
-    #       modified in-place. Afterwards, the copy is reused.
-    orig_steps = deque(steps)
-    for obj in objs:
-        while True:
-            results.extend(r for r in _expr([obj], steps))
-            next_ = steps.popleft()
-            if next_ == '|':
-                continue
-            elif next_ == ')':
+    # first get the paths up to the closing parenthesis
+    paths = [deque()]
+    depth = 1
+    while steps:
+        token = steps.popleft()
+        if token == '(':
+            depth += 1
+        elif token == ')':
+            depth -= 1
+            if depth == 0:
                 break
-            else:
-                raise XigtPathError(
-                    'expected "|" or ")": {}'.format(''.join(steps))
-                )
-        steps = deque(orig_steps)
-    # don't yield here; lazy eval screws up the steps deque
-    return results
+        if token == '|' and depth == 1:
+            paths.append(deque())
+        else:
+            paths[-1].append(token)
+    else:
+        raise XigtPathError('expected ")"')
+    if not all(paths):
+        raise XigtPathError('expected a path before "|" or ")"')
+    return (r for obj in objs for path in paths
+              for r in _expr([obj], deque(path)))
 
 def _step(objs, steps):
     if not steps:
-- 
2.43.0


From 74bdd13344f904d460327122d38c8c4344bdb8da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:22:38 +0000
Subject: [PATCH 23/55] fix: write one file per key inside of the output
 directory

IGTs were lost if different keys are the same after normalization, or if
a key is the default key, as the later file replaced the earlier one.
Keys with slashes wrote elsewhere, or failed.
---
 xigt/scripts/xigt_partition.py | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/xigt/scripts/xigt_partition.py b/xigt/scripts/xigt_partition.py
index 9b4511f..ece5b5c 100644
--- a/xigt/scripts/xigt_partition.py
+++ b/xigt/scripts/xigt_partition.py
@@ -17,13 +17,16 @@ def run(args):
     keypath = args.key_path
     for fn in args.infiles:
         logging.info('Indexing {}'.format(fn))
-        index(fn, keypath, idx)
+        index(fn, keypath, idx, args.default_key)
+    names = set()
     for key, fn_idx in idx.items():
         logging.info('Writing {} (grouped from {} files)'
                      .format(key, len(fn_idx)))
-        if key is None:
-            key = args.default_key
-        out_fn = os.path.join(args.outdir, normalize_key(key) + '.xml')
+        name = normalize_key(key)
+        while name in names:  # different keys can have the same name
+            name += '_'
+        names.add(name)
+        out_fn = os.path.join(args.outdir, name + '.xml')
         write(out_fn, fn_idx)
 
 def create_outdir(outdir):
@@ -36,14 +39,16 @@ def create_outdir(outdir):
         logging.error('Output directory could not be created.')
         sys.exit(1)
 
-def index(fn, by, idx):
+def index(fn, by, idx, default_key):
     xc = xigtxml.load(fn, mode='transient')
     for i, igt in enumerate(xc):
         idx_key = xp.find(igt, by)
+        if idx_key is None:
+            idx_key = default_key
         idx[idx_key][fn].add(i)
 
 def normalize_key(key):
-    return key.replace(':', '-')
+    return key.replace(':', '-').replace(os.sep, '-')
 
 def write(out_fn, fn_idx):
     xc = XigtCorpus()
-- 
2.43.0


From 6b7b853768d04b32b5b7080b343a7fe22127f5f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:04 +0000
Subject: [PATCH 24/55] fix: compare sort keys one by one

The parts of all keys were in one list, so that, e.g., a number in a
shorter first key was compared with the text of a second key.
---
 xigt/scripts/xigt_sort.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xigt/scripts/xigt_sort.py b/xigt/scripts/xigt_sort.py
index 21e20bb..2ca2395 100644
--- a/xigt/scripts/xigt_sort.py
+++ b/xigt/scripts/xigt_sort.py
@@ -39,9 +39,10 @@ def make_sortkey(sortkeys):
             return int(x)
         except ValueError:
             return x
-    key = lambda x: [k for sk in sortkeys
-                     for k in map(safe_int,
-                                  re.split(r'(\d+)', xp.find(x, sk) or ''))]
+    # one list per key, so that different keys are not compared
+    key = lambda x: [[k for k in map(safe_int,
+                                     re.split(r'(\d+)', xp.find(x, sk) or ''))]
+                     for sk in sortkeys]
     return key
 
 def main(arglist=None):
-- 
2.43.0


From 288c2c1e57381a1e5429ca8c70df15f4239585b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:50 +0000
Subject: [PATCH 25/55] fix: validate references to tiers without items

They were not checked, because an empty tier is false.
---
 xigt/scripts/xigt_validate.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 4d4be94..754890e 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -239,7 +239,7 @@ def item_refattrs_specified_on_tier(tier):
 def algnexpr_ids_in_referred_tier(item, refattr):
     itemref = item.attributes.get(refattr)
     reftier = get_referred_tier(item, refattr)
-    if not itemref or not reftier:
+    if not itemref or reftier is None:
         return
     missing = []
     for ae_id in ids(itemref):
@@ -256,7 +256,7 @@ def algnexpr_ids_in_referred_tier(item, refattr):
 def algnexpr_spans_in_aligned_item(item, refattr):
     itemref = item.attributes.get(refattr)
     reftier = get_referred_tier(item, refattr)
-    if not itemref or not reftier:
+    if not itemref or reftier is None:
         return
     error_spans = []
     for span in spans(itemref):
@@ -285,7 +285,7 @@ def algnexpr_spans_in_aligned_item(item, refattr):
 def algnexpr_spans_do_not_overlap(item, refattr):
     itemref = item.attributes.get(refattr)
     reftier = get_referred_tier(item, refattr)
-    if not itemref or not reftier:
+    if not itemref or reftier is None:
         return
     spans_by_id = defaultdict(Counter)
     for span in spans(itemref):
-- 
2.43.0


From ecbb24d0ef3bae6034878cf2c5b4a644b15a344e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:51 +0000
Subject: [PATCH 26/55] fix: validate all spans of alignment expressions

Overlapping spans were never detected, and lists of ids, items without a
value and items with broken references of their own made the validation
fail with an exception.
---
 xigt/scripts/xigt_validate.py | 41 ++++++++++++++++++++---------------
 1 file changed, 23 insertions(+), 18 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 754890e..1994f0a 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -9,7 +9,7 @@ warnings.simplefilter('ignore')
 
 from xigt.codecs import xigtxml
 from xigt.ref import (ids, spans, selection_re, span_re)
-from xigt.errors import XigtAttributeError
+from xigt.errors import XigtError, XigtAttributeError
 
 datalevels = ['corpus', 'igt', 'tier', 'item']
 reference_attributes = ['alignment', 'segmentation', 'content']
@@ -191,6 +191,13 @@ def get_referred_tier(item, refattr):
         return None
     return item.igt.get(tierref)
 
+def get_length(item):
+    # the length of the item's value; None if it cannot be resolved
+    try:
+        return len(item.value() or '')
+    except (XigtError, KeyError, RecursionError):
+        return None
+
 
 # TEST FUNCTIONS
 
@@ -259,9 +266,7 @@ def algnexpr_spans_in_aligned_item(item, refattr):
     if not itemref or reftier is None:
         return
     error_spans = []
-    for span in spans(itemref):
-        if span in alignment_expression_delimiters:
-            continue  # schema validator should catch bad algnexprs like '+w3'
+    for span in spans(itemref, keep_delimiters=False):
         sel_delim, item_id, _range = selection_re.match(span).groups()
         if _range:
             _, start, end = span_re.match(_range).groups()
@@ -272,7 +277,9 @@ def algnexpr_spans_in_aligned_item(item, refattr):
         tgt_item = reftier.get(item_id)
         if tgt_item is None:
             continue  # this should be caught by algnexpr_ids_in_referred_tier
-        item_len = len(tgt_item.value())
+        item_len = get_length(tgt_item)
+        if item_len is None:
+            continue  # this should be caught when validating tgt_item
         if start > item_len or end > item_len:
             error_spans.append(span)
     if error_spans:
@@ -288,21 +295,19 @@ def algnexpr_spans_do_not_overlap(item, refattr):
     if not itemref or reftier is None:
         return
     spans_by_id = defaultdict(Counter)
-    for span in spans(itemref):
-        if span in alignment_expression_delimiters:
-            continue  # schema validator should catch bad algnexprs like '+w3'
-        if isinstance(span, str):
-            tgt_item = reftier.get(span)
+    for span in spans(itemref, keep_delimiters=False):
+        _, item_id, _range = selection_re.match(span).groups()
+        if _range:
+            _, start, end = span_re.match(_range).groups()
+            spans_by_id[item_id].update(range(int(start), int(end)))
+        else:
+            tgt_item = reftier.get(item_id)
             if tgt_item is None:
                 continue  # this should be caught by algnexpr_ids_in_referred_tier
-            val = tgt_item.value()
-            if val is None:
-                continue  # does this need to be handled?
-            item_len = len(tgt_item.value())
-            spans_by_id[span].update(range(0, item_len))
-        else:
-            item_id, start, end = span
-            spans_by_id[item_id].update(range(start, end))
+            item_len = get_length(tgt_item)
+            if item_len is None:
+                continue  # this should be caught when validating tgt_item
+            spans_by_id[item_id].update(range(0, item_len))
     error_spans = [
         item_id for item_id, count in spans_by_id.items()
         if any(count[c] > 1 for c in count)
-- 
2.43.0


From 00d3f70ad7165db7d757dac6a59c043b37f73293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:23:53 +0000
Subject: [PATCH 27/55] fix: fail the validation of files that cannot be loaded

The exit status was 0 if a file was malformed at the beginning, and
later errors, including duplicate tier ids, aborted the validation.
---
 xigt/scripts/xigt_validate.py | 36 ++++++++++++++++++-----------------
 1 file changed, 19 insertions(+), 17 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 1994f0a..429cd9e 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -396,28 +396,30 @@ def run(args):
     from xml.etree import ElementTree as ET
     ids = Counter()
     for i, f in enumerate(args.files):
-        with open(f, 'r') as fh:
-            try:
+        try:
+            with open(f, 'rb') as fh:
                 xc = xigtxml.load(fh, mode='transient')
-            except ET.ParseError:
-                print('Corpus {} ({}) failed to load. First verify '
-                      'that the XML file is valid by doing a schema '
-                      'validation.'
-                      .format(i, f))
-            else:
                 context = make_context(
                     xc, i, '<xigt-corpus>', 'collection', ids=ids
                 )
                 report = validate_corpus(xc, context)
-                report = filter_empty_reports(
-                    report, minlevel=logging.getLogger().getEffectiveLevel()
-                )
-                if report_is_empty(report):
-                    passed.append(True)
-                else:
-                    passed.append(False)
-                    print_report(report, args)
-                add_id(ids, xc)
+        except (ET.ParseError, XigtError, ValueError, OSError):
+            # the error may be found only when the igts are loaded
+            passed.append(False)
+            print('Corpus {} ({}) failed to load. First verify '
+                  'that the XML file is valid by doing a schema '
+                  'validation.'
+                  .format(i, f))
+        else:
+            report = filter_empty_reports(
+                report, minlevel=logging.getLogger().getEffectiveLevel()
+            )
+            if report_is_empty(report):
+                passed.append(True)
+            else:
+                passed.append(False)
+                print_report(report, args)
+            add_id(ids, xc)
     return all(passed)
 
 def main(arglist=None):
-- 
2.43.0


From 8ca34f75a61f05ffa3664283105fc0a33c176394 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:08 +0000
Subject: [PATCH 28/55] fix: escape text for LaTeX so that it is displayed as
 it is

The names of the replacements for \, ~ and ^ ran into following letters,
and empty items were displayed as braces.
---
 xigt/exporters/latex.py | 22 ++++++++--------------
 1 file changed, 8 insertions(+), 14 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 3190491..7b00b25 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -12,9 +12,8 @@ from xigt import ref
 from xigt.exporters.util import sub
 
 DEFAULT_TIER_TYPES = ('words', 'morphemes', 'glosses')
-# order matters here
 LATEX_CHARMAP = [
-    ('\\', '\\textbackslash'),
+    ('\\', '\\textbackslash{}'),
     ('&', '\\&'),
     ('%', '\\%'),
     ('$', '\\$'),
@@ -22,8 +21,8 @@ LATEX_CHARMAP = [
     ('_', '\\_'),
     ('{', '\\{'),
     ('}', '\\}'),
-    ('~', '\\textasciitilde'),
-    ('^', '\\textasciicircum'),
+    ('~', '\\textasciitilde{}'),
+    ('^', '\\textasciicircum{}'),
 ]
 
 header = '''
@@ -54,14 +53,9 @@ def prepare_config(config):
     return config
 
 def escape(s):
-    # consider a re sub with a function. e.g.
-    # _character_unescapes = {'\\s': _field_delimiter, '\\n': '\n', '\\\\': '\\'}
-    # _unescape_func = lambda m: _character_unescapes[m.group(0)]
-    # _unescape_re = re.compile(r'(\\s|\\n|\\\\)')
-    # _unescape_re.sub(_unescape_func, string, re.UNICODE)
-    for c, r in LATEX_CHARMAP:
-        s = s.replace(c, r)
-    return s
+    # all at once, so that replacements are not escaped again
+    charmap = dict(LATEX_CHARMAP)
+    return ''.join(charmap.get(c, c) for c in s)
 
 def export_corpus(xc, config):
     for igt in xc:
@@ -95,7 +89,7 @@ def export_igt(igt, config):
             items = col[i]
             toks.append('{{{}}}'.format(
                 ' '.join(
-                    sub(escape(item.get_content() or '{}'),
+                    sub(escape(item.get_content() or '') or '{}',
                         tier_type,
                         item_subs)
                     for item in items
@@ -106,7 +100,7 @@ def export_igt(igt, config):
     for tier in igt.tiers:
         if tier.type == 'translations' and len(tier) > 0:
             lines.append('\\trans {}'.format(
-                sub(escape(tier[0].get_content() or '{}'),
+                sub(escape(tier[0].get_content() or '') or '{}',
                     tier.type,
                     tier_subs)
             ))
-- 
2.43.0


From 83a3403625901ecc9c6afd8a2c96be716f8ba4db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:24:52 +0000
Subject: [PATCH 29/55] fix: export unaligned items and empty tiers to LaTeX

Items without alignment, or a first tier without items, made the export
fail with an exception.
---
 xigt/exporters/latex.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 7b00b25..fba18d0 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -81,8 +81,7 @@ def export_igt(igt, config):
         logging.debug('Col {}'.format([[i.id for i in r] for r in col]))
     lines.append('\\begin{exe}\\small')
     lines.append('\\ex\\g{}'.format('l' * len(tiers)))
-    depth = len(all_groups[0])
-    for i in range(depth):
+    for i in range(len(tiers)):
         toks = []
         tier_type = tiers[i].type
         for col in all_groups:
@@ -117,13 +116,12 @@ def group_alignments(tiers):
     #    or as a list
     # [columns [rows [tokens]]]
     trellis = [[[item]] for item in tiers[0].items]
-    for tier in tiers[1:]:
-        trellis = align_tier(trellis, tier)
+    for depth, tier in enumerate(tiers[1:], start=1):
+        trellis = align_tier(trellis, tier, depth)
     return trellis
 
 
-def align_tier(trellis, tier):
-    depth = len(trellis[0])
+def align_tier(trellis, tier, depth):
     agenda = get_agenda(tier) # list of (aligned ids, item)
     delay = deque()  # when we need to postpone an agendum
     idx = -1  # current trellis position
@@ -180,7 +178,7 @@ def align_tier(trellis, tier):
     return trellis
 
 def get_agenda(tier):
-    agenda = [(ref.ids(item.alignment or item.segmentation), item)
+    agenda = [(ref.ids(item.alignment or item.segmentation or ''), item)
               for item in tier.items]
     # then group those with the same alignment (still a list [(ids, item)])
     agenda = deque(tuple([k, [g[1] for g in gs]])
-- 
2.43.0


From 24738c08fe6bc421ce0bfc37cde05070ab248fce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:28 +0000
Subject: [PATCH 30/55] fix: keep characters beyond the BMP in ODIN imports

They are valid in XML, but were replaced.
---
 xigt/importers/odin.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index 153d07c..c580ce0 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -222,8 +222,7 @@ def make_igt_raw_tier(block, options):
 #  \U000DFFFE, \U000DFFFF, \U000EFFFE, \U000EFFFF, \U000FFFFE, \U000FFFFF,
 #  \U0010FFFE, \U0010FFFF
 invalid_char_re = re.compile('[^\x09\x0A\x0D\u0020-\uD7FF\uE000-\uFFFD'
-                             #'\U00010000-\U0010FFFF]'
-                             ']'
+                             '\U00010000-\U0010FFFF]'
                              , re.UNICODE)
 
 
-- 
2.43.0


From 67486bb82fa6abf4a9d940e172ecebcca6ecd255 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:30 +0000
Subject: [PATCH 31/55] fix: replace invalid characters in all of an ODIN block

Those in headers, tags, attributes or language names made the output
ill-formed.
---
 xigt/importers/odin.py | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index c580ce0..516ed69 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -107,6 +107,7 @@ def odin_igts(in_fh, options):
 
 
 def make_igt(block, options):
+    block = _clean(block, options['replacement_char'])
     igt_id = block.get('igt_id', None)
 
     attributes = make_igt_attributes(block, options)
@@ -185,10 +186,7 @@ def make_igt_metadata(block, options):
 def make_igt_raw_tier(block, options):
     items = []
     for j, linedata in enumerate(block.get('lines', [])):
-        text = replace_invalid_xml_chars(
-            linedata.get('content', ''),
-            options['replacement_char']
-        )
+        text = linedata.get('content', '')
         attrs = linedata.copy()
         del attrs['content']
         items.append(Item(id='r{}'.format(j+1), attributes=attrs, text=text))
@@ -229,3 +227,14 @@ invalid_char_re = re.compile('[^\x09\x0A\x0D\u0020-\uD7FF\uE000-\uFFFD'
 def replace_invalid_xml_chars(input, replacement_char):
     # \uFFFD is the unicode replacement character
     return invalid_char_re.sub(replacement_char, input)
+
+
+def _clean(obj, replacement_char):
+    # replace invalid characters anywhere in the block
+    if isinstance(obj, str):
+        return replace_invalid_xml_chars(obj, replacement_char)
+    elif isinstance(obj, dict):
+        return {k: _clean(v, replacement_char) for k, v in obj.items()}
+    elif isinstance(obj, (list, tuple)):
+        return [_clean(v, replacement_char) for v in obj]
+    return obj
-- 
2.43.0


From 774abf36fdc59222fa190b204dc8520d754be018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:45 +0000
Subject: [PATCH 32/55] fix: fill each [incr tsdb()] cell with its own
 expression

All cells got the value of the last one.
---
 xigt/exporters/itsdb.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/xigt/exporters/itsdb.py b/xigt/exporters/itsdb.py
index 38258e7..3eabd64 100644
--- a/xigt/exporters/itsdb.py
+++ b/xigt/exporters/itsdb.py
@@ -48,10 +48,14 @@ def prepare_config(config):
             config['relations'] = rel_path
     # evaluate lambda expressions now, since they won't change
     config.setdefault('cells', DEFAULT_CELLS)
-    config['cells'] = [(key, lambda igt: eval(mapper))
+    config['cells'] = [(key, make_mapper(mapper))
                        for key, mapper in config['cells']]
     return config
 
+def make_mapper(expression):
+    # a function, so that each lambda has its own expression
+    return lambda igt: eval(expression)
+
 def export_corpus(xc, config):
     id_start = config['i-id_start']
     id_skip = config['i-id_skip']
-- 
2.43.0


From 9c7cc42318b7e8b8fb84d3e740588895872013b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:25:46 +0000
Subject: [PATCH 33/55] fix: export the text of the first phrase to [incr
 tsdb()]

The i-input was an Item object instead of its text, and an empty tier of
phrases was an error.
---
 xigt/exporters/itsdb.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xigt/exporters/itsdb.py b/xigt/exporters/itsdb.py
index 3eabd64..f37b930 100644
--- a/xigt/exporters/itsdb.py
+++ b/xigt/exporters/itsdb.py
@@ -14,8 +14,9 @@ except ImportError:
 DEFAULT_CELLS = [
     # i-input is a string of either the first phrase (preferred) or all words
     ('i-input',
-     'next(igt.select(type="phrases"), [""])[0] or '
-     '" ".join(item.get_content() '
+     'next((item.get_content() for tier in igt.select(type="phrases") '
+     '      for item in tier), "") or '
+     '" ".join(item.get_content() or "" '
      '         for item in next(igt.select(type="words"),[]))'),
     #('i-wf', '0 if igt.get_meta("judgment") else 1'),
 ]
-- 
2.43.0


From afbd5b3d3b2250a79a64222b4e371783d1d2b6f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:26:44 +0000
Subject: [PATCH 34/55] fix: segment Toolbox words within their bounds

A single morpheme selected as many characters as it has, even if the
word is shorter or longer, and the remainder of a word, which is
selected if a morpheme does not match, ended too early.
---
 xigt/importers/toolbox.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index f8d4290..79201b8 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -308,7 +308,7 @@ def align_word(tier_type, s, src_data):
         end = beg + len(src_toks[s])
     elif tier_type == 'morphemes':
         if len(src_toks) == 1:  # when there is only one morpheme, assume it is correct
-            return 0, len(src_toks[s]), 0
+            return 0, len(tgt_tok), 0
         else:  # attempt some common morpheme separations
             def_val = -1  # default is NO MATCH FOUND
             if s == 0:  # this is the FIRST token in line
@@ -333,8 +333,8 @@ def align_word(tier_type, s, src_data):
                 if tgt_tok.startswith(prev_toks):  # when previous morphemes match LHS of word
                     if s == len(src_toks) - 1:  # if we are looking at the LAST token in a series, don't need to compare
                         return len(prev_toks), len(tgt_tok), 0  # end of segment = end of word
-                    tgt_tok = tgt_tok[len(prev_toks):]  # truncate prev tokens from target
-                    if tgt_tok.startswith(new_tok):  # left hand side of tgt_tok is the same as new_tok
+                    try_tgt = tgt_tok[len(prev_toks):]  # truncate prev tokens from target
+                    if try_tgt.startswith(new_tok):  # left hand side of tgt_tok is the same as new_tok
                         return len(prev_toks), len(new_tok) + len(prev_toks),0  # end of segment = length of current tok
                 def_val = len(prev_toks)  # when no match is found, assume the rest of the word is the token
             return def_val, len(tgt_tok), -1
-- 
2.43.0


From 568a45f70e92de0f591e02454eda447abc3ab532 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:59:55 +0000
Subject: [PATCH 35/55] fix: let deprecated alignment functions report and
 resolve missing values

---
 xigt/ref.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/xigt/ref.py b/xigt/ref.py
index a3e8b2a..695edf7 100644
--- a/xigt/ref.py
+++ b/xigt/ref.py
@@ -1,8 +1,13 @@
 
 import re
+import warnings
 from collections import namedtuple
 
-from xigt.errors import (XigtLookupError, XigtStructureError)
+from xigt.errors import (
+    XigtAttributeError,
+    XigtLookupError,
+    XigtStructureError
+)
 
 ### Alignment Expressions ####################################################
 
@@ -343,10 +348,10 @@ def resolve_alignment(tier, item_id, selection, plus=delim1, comma=delim2):
         return ''
     else:
         if selection == '':
-            return item.get_content()
+            return item.get_content() or ''
         spans = sel_re.findall(selection)
         parts = [plus if match == '+' else
                  comma if match == ',' else
-                 item.span(*map(int, match.split(':')))
+                 item.span(*map(int, match.split(':'))) or ''
                  for match in spans]
         return ''.join(parts)
-- 
2.43.0


From eed841a9d42db55aa231ab50ab18d3c384f80cfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:01:55 +0000
Subject: [PATCH 36/55] fix: keep newlines when rewriting id lists

---
 xigt/ref.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/ref.py b/xigt/ref.py
index 695edf7..370e6fc 100644
--- a/xigt/ref.py
+++ b/xigt/ref.py
@@ -21,7 +21,8 @@ reflist_re = re.compile(r'^\s*([a-zA-Z][-.\w]*)(\s+[a-zA-Z][-.\w]*)*\s*$')
 robust_ref_re = re.compile(
     r'(^|.+?)'  # anything not an id (maybe space, maybe a delimiter)
     r'($|[a-zA-Z][\-.\w]*)'  # id
-    r'(?:$|\[((?:[^-.:\d]?-?[.\d]+:-?[.\d]+)+)\])?'  # range
+    r'(?:$|\[((?:[^-.:\d]?-?[.\d]+:-?[.\d]+)+)\])?',  # range
+    re.DOTALL  # ids may be separated by newlines
 )
 selection_re = re.compile(
     r'(^|[^-a-zA-Z:.])'  # start of string or delimiter
-- 
2.43.0


From d6676485fa9018849f96c21987101af7f60938ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:10 +0000
Subject: [PATCH 37/55] fix: select children that are named like a XigtPath
 function

---
 xigt/xigtpath.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/xigtpath.py b/xigt/xigtpath.py
index 71d3d3c..e179d4c 100644
--- a/xigt/xigtpath.py
+++ b/xigt/xigtpath.py
@@ -132,7 +132,8 @@ def _step(objs, steps):
             results = objs
         # elif steps and steps[0] == '::':
 
-        elif step in ('text', 'value', 'referent', 'referrer'):
+        elif (step in ('text', 'value', 'referent', 'referrer')
+                and steps and steps[0] == '('):
             steps.popleft()  # (
             args = []
             while steps and steps[0] != ')':
-- 
2.43.0


From b9e095ac9a23f576693d2319a120bf555fbb2223 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:23 +0000
Subject: [PATCH 38/55] fix: print descriptions of queries that contain braces

---
 xigt/scripts/xigt_query.py | 27 ++++++++++++++++-----------
 1 file changed, 16 insertions(+), 11 deletions(-)

diff --git a/xigt/scripts/xigt_query.py b/xigt/scripts/xigt_query.py
index 8235ebb..fa4f270 100755
--- a/xigt/scripts/xigt_query.py
+++ b/xigt/scripts/xigt_query.py
@@ -72,10 +72,7 @@ def make_job(args):
     agenda = job['agenda']
     for action, vals in args.agenda:
         if action == 'description' and agenda:
-            agendum = agenda[-1]
-            agendum['description'] = safe_format(
-                vals, query=agendum['query'], subquery=agendum.get('subquery')
-            )
+            agenda[-1]['description'] = vals
         else:
             if action in ('find', 'unique', 'count'):
                 query, subquery = vals[0], ''
@@ -87,13 +84,21 @@ def make_job(args):
                 'action': action,
                 'query': query,
                 'subquery': subquery,
-                'description': safe_format(
-                    description, query=query, subquery=subquery
-                )
+                'description': description
             })
     return job
 
 
+def describe(agendum, match):
+    # all at once, as the queries may contain braces as well
+    return safe_format(
+        agendum['description'],
+        query=agendum['query'],
+        subquery=agendum['subquery'],
+        match=match
+    )
+
+
 def process_agenda(xc, agenda):
     results = []
     for agendum in agenda:
@@ -112,7 +117,7 @@ def process_agenda(xc, agenda):
 
 def find_pattern(xc, agendum):
     for match in xp.findall(xc, agendum['query']):
-        print(' ', agendum['description'].format(match=match))
+        print(' ', describe(agendum, match))
 
 
 def tally_pattern(xc, agendum):
@@ -121,19 +126,19 @@ def tally_pattern(xc, agendum):
         group = CSTuple(xp.findall(match, agendum['subquery']))
         counts[group] += 1
     return [
-        (count, agendum['description'].format(match=match))
+        (count, describe(agendum, match))
         for match, count in counts.most_common()
     ]
 
 
 def unique_pattern(xc, agendum):
     counts = Counter(xp.findall(xc, agendum['query']))
-    return (len(counts), agendum['description'].format(match=''))
+    return (len(counts), describe(agendum, ''))
 
 
 def count_pattern(xc, agendum):
     count = len(xp.findall(xc, agendum['query']))
-    return (count, agendum['description'].format(match=''))
+    return (count, describe(agendum, ''))
 
 
 def print_results(results):
-- 
2.43.0


From 25954ff2187104e2a770ac7da8b4f577ea2b0e3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:29:24 +0000
Subject: [PATCH 39/55] fix: tally and count distinct objects

---
 xigt/scripts/xigt_query.py | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/xigt/scripts/xigt_query.py b/xigt/scripts/xigt_query.py
index fa4f270..eb8defc 100755
--- a/xigt/scripts/xigt_query.py
+++ b/xigt/scripts/xigt_query.py
@@ -115,6 +115,12 @@ def process_agenda(xc, agenda):
     return results
 
 
+def identity(match):
+    # objects (igts, items, etc.) cannot be hashed, but strings are compared
+    # by their value
+    return id(match) if hasattr(match, 'attributes') else match
+
+
 def find_pattern(xc, agendum):
     for match in xp.findall(xc, agendum['query']):
         print(' ', describe(agendum, match))
@@ -122,18 +128,21 @@ def find_pattern(xc, agendum):
 
 def tally_pattern(xc, agendum):
     counts = Counter()
+    groups = {}
     for match in xp.findall(xc, agendum['query']):
         group = CSTuple(xp.findall(match, agendum['subquery']))
-        counts[group] += 1
+        key = tuple(map(identity, group))
+        groups.setdefault(key, group)
+        counts[key] += 1
     return [
-        (count, describe(agendum, match))
-        for match, count in counts.most_common()
+        (count, describe(agendum, groups[key]))
+        for key, count in counts.most_common()
     ]
 
 
 def unique_pattern(xc, agendum):
-    counts = Counter(xp.findall(xc, agendum['query']))
-    return (len(counts), describe(agendum, ''))
+    matches = set(map(identity, xp.findall(xc, agendum['query'])))
+    return (len(matches), describe(agendum, ''))
 
 
 def count_pattern(xc, agendum):
-- 
2.43.0


From 04a54e418995d197da45e425c34b3c07e67219fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:55 +0000
Subject: [PATCH 40/55] fix: query without actions only lists the files

---
 xigt/scripts/xigt_query.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/scripts/xigt_query.py b/xigt/scripts/xigt_query.py
index eb8defc..18d5a14 100755
--- a/xigt/scripts/xigt_query.py
+++ b/xigt/scripts/xigt_query.py
@@ -207,8 +207,8 @@ def main(arglist=None):
         help='use the basename of {filename} in --file-description'
     )
     args = parser.parse_args(arglist)
-    agenda = getattr(args, 'agenda', [])
-    if agenda and agenda[0][0] == 'description':
+    args.agenda = getattr(args, 'agenda', [])
+    if args.agenda and args.agenda[0][0] == 'description':
         parser.error('--description must follow an action (e.g., --tally)')
     logging.basicConfig(level=50-(args.verbosity*10))
     run(args)
-- 
2.43.0


From 7b62c6c4afa0d6bec08f7569253c2b601c81267e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:24 +0000
Subject: [PATCH 41/55] fix: keep the order of unaligned items within a LaTeX
 column

---
 xigt/exporters/latex.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index fba18d0..7fd6dc2 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -145,6 +145,10 @@ def align_tier(trellis, tier, depth):
             idx += 1
             trellis[idx].append([])
             logging.debug('Added row at idx {}'.format(idx))
+        # items between others of the same column belong to that column
+        if trellis[idx][depth]:
+            while delay:
+                trellis[idx][depth].extend(delay.popleft()[1])
         # now fill in from delayed agenda
         if delay:
             trellis, num = add_delayed(trellis, delay, start, depth)
-- 
2.43.0


From 320d74fecb6d2744754565277c5c806d80bd98d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:09 +0000
Subject: [PATCH 42/55] fix: align LaTeX tiers with any exported tier above
 them

---
 xigt/exporters/latex.py | 15 +++++++++------
 1 file changed, 9 insertions(+), 6 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 7fd6dc2..03774c4 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -125,9 +125,11 @@ def align_tier(trellis, tier, depth):
     agenda = get_agenda(tier) # list of (aligned ids, item)
     delay = deque()  # when we need to postpone an agendum
     idx = -1  # current trellis position
-    idxmap = build_idxmap(trellis, depth - 1) # regen when trellis size changes
+    idxmap = build_idxmap(trellis, depth) # regen when trellis size changes
     for agendum in agenda:
         ids, items = agendum
+        # only other exported items can be aligned with
+        ids = [id for id in ids if id in idxmap]
         logging.debug('Agendum: {} -> {}'.format([i.id for i in items], ids))
         debug_display_trellis(trellis)
         # no alignment
@@ -156,12 +158,12 @@ def align_tier(trellis, tier, depth):
             idx += num
             start += num
             end += num
-            idxmap = build_idxmap(trellis, depth - 1)
+            idxmap = build_idxmap(trellis, depth)
         # now add new item, merging if necessary
         if start != end:
             # end + 1 so the slice gets the last column
             trellis = merge_columns(trellis, start, end + 1)
-            idxmap = build_idxmap(trellis, depth - 1)
+            idxmap = build_idxmap(trellis, depth)
             debug_display_trellis(trellis)
         #trellis[idx]
         #trellis[idx][depth]
@@ -190,8 +192,9 @@ def get_agenda(tier):
     return agenda
 
 def build_idxmap(trellis, depth):
-    idxmap = {it.id:i for i, col in enumerate(trellis) for it in col[depth]}
-    logging.debug('Built idxmap for depth {}:\n  {}'.format(depth, idxmap))
+    idxmap = {it.id:i for i, col in enumerate(trellis)
+              for row in col[:depth] for it in row}
+    logging.debug('Built idxmap up to depth {}:\n  {}'.format(depth, idxmap))
     return idxmap
 
 def add_delayed(trellis, delay, pos, depth):
@@ -200,7 +203,7 @@ def add_delayed(trellis, delay, pos, depth):
         _, delayed_items = delay.popleft()
         col = [[]] * (depth)
         col.append(delayed_items)
-        trellis.insert(pos, col)
+        trellis.insert(pos + num, col)
         logging.debug('Added delayed items at {}: {}'
                       .format(pos, delayed_items))
         num += 1
-- 
2.43.0


From eb32350972b01d8f6d0b1b095534f2b2268627d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:23 +0000
Subject: [PATCH 43/55] fix: let nested expressions of [incr tsdb()] cells use
 the igt

---
 xigt/exporters/itsdb.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/exporters/itsdb.py b/xigt/exporters/itsdb.py
index f37b930..96d9ae5 100644
--- a/xigt/exporters/itsdb.py
+++ b/xigt/exporters/itsdb.py
@@ -55,7 +55,8 @@ def prepare_config(config):
 
 def make_mapper(expression):
     # a function, so that each lambda has its own expression
-    return lambda igt: eval(expression)
+    # (igt is a global, so that nested functions of the expression see it)
+    return lambda igt: eval(expression, dict(globals(), igt=igt))
 
 def export_corpus(xc, config):
     id_start = config['i-id_start']
-- 
2.43.0


From b5327f9d65c483c56f8e1fc97074390f85d7a477 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:24 +0000
Subject: [PATCH 44/55] fix: do not change the configuration of an [incr
 tsdb()] export

---
 xigt/exporters/itsdb.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/exporters/itsdb.py b/xigt/exporters/itsdb.py
index 96d9ae5..d93a0a8 100644
--- a/xigt/exporters/itsdb.py
+++ b/xigt/exporters/itsdb.py
@@ -33,8 +33,8 @@ def xigt_export(xc, outpath, config=None):
     )
 
 def prepare_config(config):
-    if config is None:
-        config = {}
+    # a copy, so that the configuration can be used again
+    config = dict(config or {})
     config.setdefault('i-id_start', 0)
     config.setdefault('i-id_skip', 10)
     # attempt to find default Relations file
-- 
2.43.0


From 397f87ce4f6914a1632e3da28a4d07cd28d8deab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:13 +0000
Subject: [PATCH 45/55] fix: take names of ODIN directories and suffixes
 literally

---
 xigt/importers/odin.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index 516ed69..f5bc98d 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -66,9 +66,10 @@ def xigt_import(inpath, outpath, options=None):
         suffix = options['input_file_suffix']
         if not os.path.exists(outpath):
             prepare_outdir(outpath)
-        filepattern = '*{}'.format(suffix)
-        for infile in glob.glob(os.path.join(inpath, filepattern)):
-            outfile = re.sub(suffix + r'$', '.xml', os.path.basename(infile))
+        filepattern = '*{}'.format(glob.escape(suffix))
+        for infile in glob.glob(os.path.join(glob.escape(inpath), filepattern)):
+            outfile = re.sub(re.escape(suffix) + r'$', '.xml',
+                             os.path.basename(infile))
             _xigt_import(infile, os.path.join(outpath, outfile), options)
     else:
         raise XigtImportError(
-- 
2.43.0


From 16dcd3c680974546d069a0a73db8ceae8a23bff4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:14 +0000
Subject: [PATCH 46/55] fix: accept a backslash as ODIN replacement character

---
 xigt/importers/odin.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/xigt/importers/odin.py b/xigt/importers/odin.py
index f5bc98d..8c08d63 100644
--- a/xigt/importers/odin.py
+++ b/xigt/importers/odin.py
@@ -227,7 +227,8 @@ invalid_char_re = re.compile('[^\x09\x0A\x0D\u0020-\uD7FF\uE000-\uFFFD'
 
 def replace_invalid_xml_chars(input, replacement_char):
     # \uFFFD is the unicode replacement character
-    return invalid_char_re.sub(replacement_char, input)
+    # (a function, as a backslash is special in replacement strings)
+    return invalid_char_re.sub(lambda m: replacement_char, input)
 
 
 def _clean(obj, replacement_char):
-- 
2.43.0


From cb4cca0db989d035e83707c0d2f313f48e3753c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:02:29 +0000
Subject: [PATCH 47/55] fix: import Toolbox records whose names start with
 other letters

---
 xigt/importers/toolbox.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index 79201b8..e98e899 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -158,9 +158,9 @@ def toolbox_igts(tb, options):
             yield igt
 
 def make_igt(key, data, context, options):
-    # IDs must start with a letter
+    # IDs must start with an ASCII letter
     assert key
-    if not key[0].isalpha():
+    if not re.match('[a-zA-Z]', key):
         key = 'igt{}'.format(key)
     if context is None:
         context = {}
-- 
2.43.0


From ada18744b5d05abd264458a62410dbd5ee956406 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:03:00 +0000
Subject: [PATCH 48/55] fix: keep the spacing of Toolbox lines that are not
 aligned

---
 xigt/importers/toolbox.py | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/xigt/importers/toolbox.py b/xigt/importers/toolbox.py
index e98e899..f947dcd 100755
--- a/xigt/importers/toolbox.py
+++ b/xigt/importers/toolbox.py
@@ -122,8 +122,13 @@ def xigt_import(infile, outfile, options=None, encoding='utf-8'):
     # just use existing info to create marker-based alignment info
     options['tb_alignments'] = _make_tb_alignments(options) 
 
+    # only the columns of aligned lines matter; others keep their spacing
+    aligned_mkrs = set(options['tb_alignments'].keys())
+    aligned_mkrs.update(options['tb_alignments'].values())
+
     with open(infile, 'rb') as in_fh, open(outfile, 'w') as out_fh:
-        in_lines = (_respace_decode(line, encoding) for line in in_fh)
+        in_lines = (_decode_line(line, encoding, aligned_mkrs)
+                    for line in in_fh)
         tb = toolbox.read_toolbox_file(in_lines)
         igts = toolbox_igts(tb, options)
         xc = XigtCorpus(igts=igts, mode='transient')
@@ -342,6 +347,13 @@ def align_word(tier_type, s, src_data):
 
 
 
+def _decode_line(line, encoding, aligned_mkrs):
+    decoded = line.rstrip(b'\n').decode(encoding)
+    if any(mkr in aligned_mkrs for mkr in decoded.split(None, 1)[:1]):
+        return _respace_decode(line, encoding)
+    return decoded
+
+
 def _respace_decode(line, encoding):
     toks = []
     line = line.rstrip(b'\n')
-- 
2.43.0


From 91ed5a3674ce96b9254dba77e83cc2f73deb2821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:05 +0000
Subject: [PATCH 49/55] fix: check all names of metadata children

---
 xigt/metadata.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/xigt/metadata.py b/xigt/metadata.py
index 3c51dca..8e10da5 100644
--- a/xigt/metadata.py
+++ b/xigt/metadata.py
@@ -13,7 +13,7 @@ from xigt.errors import XigtError
 # This also excludes colons in the name (because of potential trouble
 # with xml processors treating them as namespace delimiters)
 # http://www.w3.org/TR/2000/WD-xml-2e-20000814#NT-Name
-name_re = re.compile(r'^[^\W\d][-.\w]*$')
+name_re = re.compile(r'^[^\W\d][-.\w]*\Z')
 
 class XigtMetadataMixin(object):
     """
@@ -172,13 +172,20 @@ class MetaChild(XigtContainerMixin, XigtAttributeMixin):
             namespace=namespace, nsmap=nsmap
         )
 
-        if not name_re.match(name):
-            raise ValueError('Invalid name for MetaChild: {}'.format(name))
         self.name = name
         self._parent = parent
         self.text = text
         self.extend(children or [])
 
+    @property
+    def name(self):
+        return self._name
+    @name.setter
+    def name(self, value):
+        if not name_re.match(value):
+            raise ValueError('Invalid name for MetaChild: {}'.format(value))
+        self._name = value
+
     def __repr__(self):
         return '<MetaChild object (name: {}) at {}>'.format(
             str(self.name or '--'), str(id(self))
-- 
2.43.0


From 2a9dcf33942423b0a710544b3b62c7743e3aac5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:13:06 +0000
Subject: [PATCH 50/55] fix: check that properties do not combine segmentation
 with other references

---
 xigt/mixins.py | 16 +++++++++++-----
 1 file changed, 11 insertions(+), 5 deletions(-)

diff --git a/xigt/mixins.py b/xigt/mixins.py
index 42b703a..0916f85 100644
--- a/xigt/mixins.py
+++ b/xigt/mixins.py
@@ -289,11 +289,7 @@ class XigtAttributeMixin(object):
 
 class XigtReferenceAttributeMixin(object):
     def __init__(self, alignment=None, content=None, segmentation=None):
-        if segmentation and (content or alignment):
-            raise XigtError(
-                'The "segmentation" reference attribute cannot co-occur with '
-                'the "content" or "alignment" reference attributes.'
-            )
+        self._assert_compatible(alignment, content, segmentation)
 
         if alignment is not None:
             self.attributes[ALIGNMENT] = alignment
@@ -302,6 +298,13 @@ class XigtReferenceAttributeMixin(object):
         if segmentation is not None:
             self.attributes[SEGMENTATION] = segmentation
 
+    def _assert_compatible(self, alignment, content, segmentation):
+        if segmentation and (content or alignment):
+            raise XigtError(
+                'The "segmentation" reference attribute cannot co-occur with '
+                'the "content" or "alignment" reference attributes.'
+            )
+
     def referents(self, refattrs=None):
         if not getattr(self, 'igt'):
             raise XigtError('Cannot retrieve referents; unspecified IGT.')
@@ -321,6 +324,7 @@ class XigtReferenceAttributeMixin(object):
         return self.attributes.get(ALIGNMENT)
     @alignment.setter
     def alignment(self, value):
+        self._assert_compatible(value, None, self.segmentation)
         self.attributes[ALIGNMENT] = value
 
     @property
@@ -328,6 +332,7 @@ class XigtReferenceAttributeMixin(object):
         return self.attributes.get(CONTENT)
     @content.setter
     def content(self, value):
+        self._assert_compatible(None, value, self.segmentation)
         self.attributes[CONTENT] = value
 
     @property
@@ -335,4 +340,5 @@ class XigtReferenceAttributeMixin(object):
         return self.attributes.get(SEGMENTATION)
     @segmentation.setter
     def segmentation(self, value):
+        self._assert_compatible(self.alignment, self.content, value)
         self.attributes[SEGMENTATION] = value
-- 
2.43.0


From 16835317792fddffe500a502695ac8c21a0234bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:02 +0000
Subject: [PATCH 51/55] fix: xigt COMMAND -- FILE lost the -- before the
 command could see it

---
 xigt/main.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/xigt/main.py b/xigt/main.py
index 2fdd17f..912dd18 100644
--- a/xigt/main.py
+++ b/xigt/main.py
@@ -1,5 +1,6 @@
 
 import argparse
+import sys
 
 from xigt.scripts import (
     xigt_export,
@@ -33,8 +34,9 @@ def main():
         nargs=argparse.REMAINDER
     )
 
-    args = parser.parse_args()
-    cmdmap[args.command].main(args.args)
+    # the command parses its own arguments (argparse would drop a '--')
+    args = parser.parse_args(sys.argv[1:2])
+    cmdmap[args.command].main(sys.argv[2:])
 
 
 if __name__ == '__main__':
-- 
2.43.0


From 48e94033bee8551b54b4ea1996294c879465179d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:04 +0000
Subject: [PATCH 52/55] fix: xigt.sh did not work in directories with spaces in
 their names

---
 xigt.sh | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt.sh b/xigt.sh
index 8086921..5855972 100755
--- a/xigt.sh
+++ b/xigt.sh
@@ -1,6 +1,6 @@
 #!/bin/bash
 
-curdir=$( cd `dirname $0` && pwd)
+curdir="$(cd "$(dirname "$0")" && pwd)"
 export PYTHONPATH="$curdir":"$PYTHONPATH"
 python3 -m xigt.main "$@"
 
-- 
2.43.0


From 8cbe50c0c87f89fc4cb38bbb92944b61ac02381a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:03:18 +0000
Subject: [PATCH 53/55] fix: validate needed time and memory in proportion to
 the numbers in spans

---
 xigt/scripts/xigt_validate.py | 16 +++++++++-------
 1 file changed, 9 insertions(+), 7 deletions(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 429cd9e..7c59d39 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -294,12 +294,13 @@ def algnexpr_spans_do_not_overlap(item, refattr):
     reftier = get_referred_tier(item, refattr)
     if not itemref or reftier is None:
         return
-    spans_by_id = defaultdict(Counter)
+    # (positions are not listed one by one, as there may be very many)
+    spans_by_id = defaultdict(list)
     for span in spans(itemref, keep_delimiters=False):
         _, item_id, _range = selection_re.match(span).groups()
         if _range:
             _, start, end = span_re.match(_range).groups()
-            spans_by_id[item_id].update(range(int(start), int(end)))
+            spans_by_id[item_id].append((int(start), int(end)))
         else:
             tgt_item = reftier.get(item_id)
             if tgt_item is None:
@@ -307,11 +308,12 @@ def algnexpr_spans_do_not_overlap(item, refattr):
             item_len = get_length(tgt_item)
             if item_len is None:
                 continue  # this should be caught when validating tgt_item
-            spans_by_id[item_id].update(range(0, item_len))
-    error_spans = [
-        item_id for item_id, count in spans_by_id.items()
-        if any(count[c] > 1 for c in count)
-    ]
+            spans_by_id[item_id].append((0, item_len))
+    error_spans = []
+    for item_id, item_spans in spans_by_id.items():
+        item_spans = sorted(s for s in item_spans if s[0] < s[1])
+        if any(a[1] > b[0] for a, b in zip(item_spans, item_spans[1:])):
+            error_spans.append(item_id)
     if error_spans:
         return (
             'Alignment expression spans {{modal}} NOT overlap. Spans '
-- 
2.43.0


From e54ed3cea7fafc56eba050d1c6ba0b1d0c75eeef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:42:38 +0000
Subject: [PATCH 54/55] fix: validate lost the words MUST and SHOULD when
 docstrings are stripped

---
 xigt/scripts/xigt_validate.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/xigt/scripts/xigt_validate.py b/xigt/scripts/xigt_validate.py
index 7c59d39..df72214 100755
--- a/xigt/scripts/xigt_validate.py
+++ b/xigt/scripts/xigt_validate.py
@@ -39,7 +39,7 @@ def validate_condition(condition, obj, context):
         if isinstance(results, str):
             results = [results]
         for result in results:
-            msg = result.format(modal=make_record.__doc__, **context)
+            msg = result.format(modal=make_record.__name__.upper(), **context)
             records.append(make_record(msg))
     return records
 
-- 
2.43.0


From fa94d3f6077916e7a681011f0d6cf1d395ac965d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:57:27 +0000
Subject: [PATCH 55/55] fix: export tiers and items without ids to LaTeX

---
 xigt/exporters/latex.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/xigt/exporters/latex.py b/xigt/exporters/latex.py
index 03774c4..4f4c795 100644
--- a/xigt/exporters/latex.py
+++ b/xigt/exporters/latex.py
@@ -74,7 +74,7 @@ def export_igt(igt, config):
             tiers.append(tier)
     if len(tiers) < 2:
         return '%\n% cannot export IGT {}\n%'.format(igt.id)
-    logging.debug('Aligning tiers: {}'.format(', '.join(t.id for t in tiers)))
+    logging.debug('Aligning tiers: {}'.format(', '.join(str(t.id) for t in tiers)))
     lines = []
     all_groups = group_alignments(tiers)
     for col in all_groups:
@@ -224,7 +224,8 @@ def merge_columns(trellis, start, end):
 def debug_display_trellis(trellis):
     strs = []
     for col in trellis:
-        toks = [' '.join(i.id for i in row) if row else '[]' for row in col]
+        toks = [' '.join(str(i.id) for i in row) if row else '[]'
+                for row in col]
         maxlen = max(len(t) for t in toks)
         toks = [t.ljust(maxlen) for t in toks]
         strs.append(toks)
-- 
2.43.0

