From 87a5b0eb8e63795656e5139f9ec985c89772cd7d Mon Sep 17 00:00:00 2001
From: v <v@x>
Date: Wed, 18 Nov 2026 22:13:54 +0000
Subject: [PATCH 001/111] fix: keep escaped spaces and escaped backslashes when
 expanding hex escapes in Unicode sets

---
 lib/sldr/UnicodeSets.py | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/lib/sldr/UnicodeSets.py b/lib/sldr/UnicodeSets.py
index a9957b3..0bd6d2f 100644
--- a/lib/sldr/UnicodeSets.py
+++ b/lib/sldr/UnicodeSets.py
@@ -25,8 +25,8 @@
 import unicodedata
 import re
 
-hexescre = re.compile(r"(?:\\(?:ux)\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})|\\U([0-9a-fA-F]{8})|\\x([0-9a-fA-F]{2}))")
-hexgre = re.compile(r"\\u\{([0-9a-fA-F]+)\}")
+hexescre = re.compile(r"\\\\|(?:\\(?:ux)\{([0-9a-fA-F]+)\}|\\u([0-9a-fA-F]{4})|\\U([0-9a-fA-F]{8})|\\x([0-9a-fA-F]{2}))")
+hexgre = re.compile(r"\\\\|\\u\{([0-9a-fA-F]+)\}")
 simpleescs = {
     'a' : "\u0007",
     'b' : "\u0008",
@@ -188,8 +188,24 @@ def flatten(s, normal=None):
         yield "".join(_expand(p, vals, i, x) for i, x in enumerate(indices))
 
 
+def _unhex(m):
+    """Expand a hex escape to its, possibly escaped, character. An escaped backslash stays as it is."""
+    if m.lastindex is None:
+        return m.group(0)
+    c = chr(int(m.group(m.lastindex), 16))
+    return "\\ " if c == " " else escapechar(c)
+
+
+def _unhexgroup(m):
+    """Expand a hex escape with a list of characters to a string item. An escaped backslash stays as it is."""
+    if m.lastindex is None:
+        return m.group(0)
+    cs = (chr(int(x, 16)) for x in m.group(1).split())
+    return "{" + "".join("\\ " if c == " " else escapechar(c) for c in cs) + "}"
+
+
 def struni(s, groups=None):
-    s = hexescre.sub(lambda m:escapechar(chr(int(m.group(m.lastindex), 16))), s)
+    s = hexescre.sub(_unhex, s)
     s = simpleescsre.sub(lambda m:simpleescs.get(m.group(1), m.group(1)), s)
     if groups is not None:
         s = groupsre.sub(lambda m:groups[int(m.group(1)) - 1], s)
@@ -199,10 +215,10 @@ def struni(s, groups=None):
 def parse(s, normal=None):
     '''Returns a sequence of UnicodeSet'''
     # convert escapes
-    s = hexescre.sub(lambda m:escapechar(chr(int(m.group(m.lastindex), 16))), s)
+    s = hexescre.sub(_unhex, s)
     # don't flatten \\ escapes here since we need to differentiate with action chars {}[]
-    s = hexgre.sub(lambda m:"{"+"".join(escapechar(chr(int(x, 16))) for x in m.group(1).split())+"}", s)
-    s = s.replace(' ', '')
+    s = hexgre.sub(_unhexgroup, s)
+    s = re.sub(r"(\\.)| ", r"\1", s, flags=re.S)    # spaces that are not escaped are not significant
     res = UnicodeSetSequence()
     i = 0
     currgroup = -1
-- 
2.43.0


From e20cd8850819b19920c3a445d98df56a51c02242 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:13:54 +0000
Subject: [PATCH 002/111] fix: find the end of a Unicode set or string after
 escaped backslashes and nested sets

---
 lib/sldr/UnicodeSets.py | 24 ++++++++++++++++++------
 1 file changed, 18 insertions(+), 6 deletions(-)

diff --git a/lib/sldr/UnicodeSets.py b/lib/sldr/UnicodeSets.py
index 0bd6d2f..0205661 100644
--- a/lib/sldr/UnicodeSets.py
+++ b/lib/sldr/UnicodeSets.py
@@ -204,6 +204,22 @@ def _unhexgroup(m):
     return "{" + "".join("\\ " if c == " " else escapechar(c) for c in cs) + "}"
 
 
+def _findclose(s, ind, close, nested=None):
+    """Returns the index of the unescaped close that ends the item whose content starts at ind"""
+    depth = 0
+    while ind < len(s):
+        if s[ind] == '\\':
+            ind += 1
+        elif s[ind] == close:
+            if depth == 0:
+                return ind
+            depth -= 1
+        elif s[ind] == nested:
+            depth += 1
+        ind += 1
+    raise ValueError("Missing {} in {}".format(close, s))
+
+
 def struni(s, groups=None):
     s = hexescre.sub(_unhex, s)
     s = simpleescsre.sub(lambda m:simpleescs.get(m.group(1), m.group(1)), s)
@@ -248,9 +264,7 @@ def parseitem(s, ind, lastitem, end, usegroups=False):
             ind += 1
         item = None
         res.setclass(True)
-        e = s.index(']', ind)
-        while e > 0 and s[e-1] == '\\' and s[e-2] != '\\':
-            e = s.index(']', e+1)
+        e = _findclose(s, ind, ']', nested='[')
         while ind < e:
             (ind, item, nextitem) = parseitem(s, ind, item, e)
             if item:
@@ -312,9 +326,7 @@ def parseitem(s, ind, lastitem, end, usegroups=False):
             else:
                 res.add(op)
     elif s[ind] == '{':
-        e = s.index('}', ind+1)
-        while e > 0 and s[e-1] == '\\':
-            e = s.index('}', e+1)
+        e = _findclose(s, ind+1, '}')
         res.add(simpleescsre.sub(lambda m:simpleescs.get(m.group(1), m.group(1)), s[ind+1:e]))
         ind = e + 1
     elif s[ind] == '\\':
-- 
2.43.0


From 9559fb1392c940486ce5310ed3a5f3fe73525fbe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:25 +0000
Subject: [PATCH 003/111] fix: make set operations between nested Unicode sets
 work, also on empty sets

---
 lib/sldr/UnicodeSets.py | 24 +++++++++++++++++++++---
 1 file changed, 21 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/UnicodeSets.py b/lib/sldr/UnicodeSets.py
index 0205661..3bc4736 100644
--- a/lib/sldr/UnicodeSets.py
+++ b/lib/sldr/UnicodeSets.py
@@ -160,6 +160,24 @@ class UnicodeSet(set):
     def setclass(self, state):
         self.isclass = state
 
+    def _result(self, chars):
+        """ set operations result in plain sets, so turn them back into the result of an operation on classes"""
+        res = UnicodeSet(chars)
+        res.setclass(self.isclass)
+        return res
+
+    def union(self, other):
+        return self._result(set.union(self, other))
+
+    def __or__(self, other):
+        return self._result(set.union(self, other))
+
+    def __and__(self, other):
+        return self._result(set.intersection(self, other))
+
+    def __sub__(self, other):
+        return self._result(set.difference(self, other))
+
 
 def _expand(p, vals, ind, indval):
     if vals[ind][indval].startswith("\\"):
@@ -280,7 +298,7 @@ def parseitem(s, ind, lastitem, end, usegroups=False):
             res.add(op)
         else:
             (ind, _, item) = parseitem(s, ind, None, end)
-            if op == '|' and lastitem and item:
+            if op == '|' and lastitem is not None and item is not None:
                 if lastitem.negative:
                     if item.negative:
                         res = lastitem & item
@@ -292,7 +310,7 @@ def parseitem(s, ind, lastitem, end, usegroups=False):
                 else:
                     res = item.union(lastitem)
                 lastitem = None
-            elif op == '&' and lastitem and item:
+            elif op == '&' and lastitem is not None and item is not None:
                 if lastitem.negative:
                     if item.negative:
                         res = item.union(lastitem)
@@ -305,7 +323,7 @@ def parseitem(s, ind, lastitem, end, usegroups=False):
                 lastitem = None
             elif op == '-':
                 # set difference
-                if lastitem and item and lastitem.isclass and item.isclass:
+                if lastitem is not None and item is not None and lastitem.isclass and item.isclass:
                     if lastitem.negative:
                         if item.negative:
                             res = item - lastitem
-- 
2.43.0


From 5f559a51df7c5c62360f6ac75ca1b45eab50ea3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:14:39 +0000
Subject: [PATCH 004/111] fix: flatten every combination of a sequence of
 Unicode sets, literal backslashes included

---
 lib/sldr/UnicodeSets.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/UnicodeSets.py b/lib/sldr/UnicodeSets.py
index 3bc4736..c752501 100644
--- a/lib/sldr/UnicodeSets.py
+++ b/lib/sldr/UnicodeSets.py
@@ -180,7 +180,7 @@ class UnicodeSet(set):
 
 
 def _expand(p, vals, ind, indval):
-    if vals[ind][indval].startswith("\\"):
+    if groupsre.match(vals[ind][indval]):
         g = p.group(int(vals[ind][indval][1]))
         return "".join(_expand(p, vals, i, indices[i]) for i in range(g[0], g[1]))
     else:
@@ -194,6 +194,7 @@ def flatten(s, normal=None):
     num = len(vals)
     indices = [0] * num
     while True:
+        yield "".join(_expand(p, vals, i, x) for i, x in enumerate(indices))
         for i in range(num):
             if indices[i] == lens[i] - 1:
                 indices[i] = 0
@@ -202,8 +203,6 @@ def flatten(s, normal=None):
                 break
         else:
             return
-        res = []
-        yield "".join(_expand(p, vals, i, x) for i, x in enumerate(indices))
 
 
 def _unhex(m):
-- 
2.43.0


From e37f23c73647d32c8218cfd99163f92dbaa60956 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:15:48 +0000
Subject: [PATCH 005/111] fix: treat all of the supplementary private use
 planes as private use

---
 lib/sldr/ldml_exemplars.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index db0cf76..0bcf94b 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -162,9 +162,9 @@ class UCD(object):
         numeric_char = ord(char)
         if 0xE000 <= numeric_char <= 0xF8FF:
             return True
-        if 0xFFF80 <= numeric_char < 0xFFFFE:
+        if 0xF0000 <= numeric_char < 0xFFFFE:
             return True
-        if 0x10FF80 <= numeric_char < 0x10FFFE:
+        if 0x100000 <= numeric_char < 0x10FFFE:
             return True
         return False
 
-- 
2.43.0


From c98a0e8c1b29d87095a3e1ca3b437b02b1d008ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:13 +0000
Subject: [PATCH 006/111] fix: keep the order of variants and of the parts of
 an extension in language tags

---
 lib/sldr/langtags_full.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index 5d01620..14f2967 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -79,7 +79,7 @@ class LangTag(object) :
         res = []
         for ns in sorted(self.extensions.keys()) :
             res.append(ns)
-            res.extend(sorted(self.extensions[ns]))
+            res.extend(self.extensions[ns])     # their order is significant
         return res
 
     def __str__(self) :
@@ -221,27 +221,27 @@ class LangTag(object) :
         #    srs = [x for x in srs if x[0] == None and x[1] == self.region]
         extravars = []
         if self.variants is not None :
-            varset = set(self.variants)
             if self.hidevariants is None:
                 removes = [set()]
             else:
                 removes = powerset(self.hidevariants)
             for r in removes:
-                extravars.append("-".join(sorted(varset - r)))
+                extravars.append("-".join(v for v in self.variants if v not in r))
         else:
             extravars = [None]
         extraexts = []
         if self.extensions is not None :
-            extset = set((k, x) for k, v in self.extensions.items() for x in v)
             if self.hideextensions is None:
                 removes = [set()]
             else:
                 removes = powerset([(k, x) for k, v in self.hideextensions.items() for x in v])
             for r in removes:
                 short = {}
-                for k, v in (extset - r):
-                    short.setdefault(k, []).append(v)
-                extraexts.append("-".join(["-".join([k] + sorted(v)) for k, v in sorted(short.items())]))
+                for k, vs in self.extensions.items():
+                    v = [x for x in vs if (k, x) not in r]
+                    if len(v):
+                        short[k] = v
+                extraexts.append("-".join(["-".join([k] + v) for k, v in sorted(short.items())]))
         else:
             extraexts = [None]
         res = []
-- 
2.43.0


From 31584b0ff781f5812578f16f32257a2599b89c70 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:13 +0000
Subject: [PATCH 007/111] fix: parse four character variants such as 1901 in a
 language tag as variants

---
 lib/sldr/langtags_full.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index 14f2967..eb9f3e4 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -133,7 +133,7 @@ class LangTag(object) :
                 curr += 1
             self.lang = self.lang[:-1]
         if curr >= len(bits) : return
-        if len(bits[curr]) == 4 :
+        if len(bits[curr]) == 4 and bits[curr].isalpha():     # 4 characters with a digit are a variant
             self.script = bits[curr].title()
             curr += 1
             self.hideboth = False
@@ -146,7 +146,7 @@ class LangTag(object) :
             curr += 1
             self.hideboth = False
         if curr >= len(bits): return
-        if len(bits[curr]) == 4 and self.script is None:
+        if len(bits[curr]) == 4 and bits[curr].isalpha() and self.script is None:
             self.lang += "-"+self.region
             self.script = bits[curr]
             self.region = None
-- 
2.43.0


From 7067b1fdae2b3b8a7c1261210e8a63794913ad1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 008/111] fix: parse a language tag with a script after an
 extended language subtag

---
 lib/sldr/langtags_full.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index eb9f3e4..4cc1f1c 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -138,7 +138,7 @@ class LangTag(object) :
             curr += 1
             self.hideboth = False
         elif len(bits[curr]) == 3 and bits[curr][0] not in "0123456789":
-            self.lang += "-" + bits[curr]
+            self.lang += "-" + bits[curr].lower()
             curr += 1
         if curr >= len(bits) : return
         if 1 < len(bits[curr]) < 4 :
@@ -147,14 +147,15 @@ class LangTag(object) :
             self.hideboth = False
         if curr >= len(bits): return
         if len(bits[curr]) == 4 and bits[curr].isalpha() and self.script is None:
-            self.lang += "-"+self.region
-            self.script = bits[curr]
+            if self.region is not None:
+                self.lang += "-"+self.region
+            self.script = bits[curr].title()
             self.region = None
             curr += 1
             self.hideboth = False
             if curr >= len(bits): return
             if 1 < len(bits[curr]) < 4:
-                self.region = bits[curr]
+                self.region = bits[curr].upper()
                 curr += 1
         ns = ''
         extensions = {}
-- 
2.43.0


From 2af2234be0e3ea217da79bd500c417ba32105455 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 009/111] fix: keep single character private use subtags in a
 language tag

---
 lib/sldr/langtags_full.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index 4cc1f1c..f7b7bac 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -161,7 +161,7 @@ class LangTag(object) :
         extensions = {}
         variants = []
         while curr < len(bits) :
-            if len(bits[curr]) == 1 :
+            if len(bits[curr]) == 1 and ns != 'x' :     # anything may follow x
                 ns = bits[curr].lower()
                 extensions[ns] = []
             elif ns == '' :
-- 
2.43.0


From 2113b57ee69dc70dc29c921549d5b3f9c624b602 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:19:30 +0000
Subject: [PATCH 010/111] fix: leave a language tag as it was when merging
 another into it is refused

---
 lib/sldr/langtags_full.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index f7b7bac..88e02ea 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -174,6 +174,7 @@ class LangTag(object) :
 
     def merge_equivalent(self, tag) :
         oldscript = self.script
+        oldhidescript = self.hidescript
         if self.script is None and self.script != tag.script:
             self.script = tag.script
         elif tag.script is not None and self.script != tag.script:
@@ -186,6 +187,7 @@ class LangTag(object) :
             self.region = tag.region
         elif tag.region is not None and tag.region != self.region:
             self.script = oldscript
+            self.hidescript = oldhidescript
             return False
         elif tag.region is None:
             self.hidescript = True  # yes really script
-- 
2.43.0


From 01734277b5f65ab19775877a62b191056e618bfd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:20:35 +0000
Subject: [PATCH 011/111] fix: read folded, repeated and whole-tag fields of
 the IANA registry as they are

---
 lib/sldr/iana.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/iana.py b/lib/sldr/iana.py
index bc9f9ed..f3272b8 100644
--- a/lib/sldr/iana.py
+++ b/lib/sldr/iana.py
@@ -36,7 +36,11 @@ class Iana(object):
         with open(path, "r", encoding='utf-8') as fh:
             for l in fh.readlines():
                 if l.startswith(" "):
-                    currtag[currfield] += " " + l.strip()
+                    if isinstance(currtag[currfield], list):
+                        currtag[currfield][-1] += " " + l.strip()
+                    else:
+                        currtag[currfield] += " " + l.strip()
+                    continue
                 try:
                     f, v = l.strip().split(":", 1)
                 except ValueError:
@@ -45,7 +49,7 @@ class Iana(object):
                 f = f.lower()
                 if f == "type":
                     currtype = v
-                elif f == "subtag":
+                elif f in ("subtag", "tag"):    # grandfathered and redundant records have a tag
                     currtag = {}
                     if not hasattr(self, currtype):
                         setattr(self, currtype, {})
-- 
2.43.0


From 7d16eb0bf23c17e06aff41d1833c950409eda20a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:22:40 +0000
Subject: [PATCH 012/111] fix: read folded descriptions from the IANA registry
 into language tags

---
 lib/sldr/langtags_full.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index 88e02ea..bfe0595 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -380,10 +380,17 @@ class LangTags(with_metaclass(Singleton, dict)):
             fname = os.path.join(os.path.dirname(__file__), "language-subtag-registry.txt")
         with open(fname, encoding="utf-8") as f :
             currlang = None
+            tag = None
             mode = None
             deprecated = False
+            indesc = False
             for l in f.readlines() :
+                if l.startswith(" ") :      # folded line
+                    if indesc:
+                        tag.desc[-1] += " " + l.strip()
+                    continue
                 l = l.strip()
+                indesc = l.startswith("Description: ") and tag is not None
                 if l.startswith("Type: ") :
                     if mode == "variant":
                         if not hasprefix:
-- 
2.43.0


From 92639299c631dc1189d4f51dd20dfaf8d2634ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:18 +0000
Subject: [PATCH 013/111] fix: copy elements with copy.copy as Element.copy is
 no more

---
 lib/sldr/ldml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 86d12a7..d05f86a 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -26,7 +26,7 @@
 from xml.etree import ElementTree as et
 from xml.etree import ElementPath as ep
 import itertools
-import re, os, codecs
+import re, os, codecs, copy
 import xml.parsers.expat
 import functools
 from math import log10
@@ -479,7 +479,7 @@ class Ldml(ETWriter):
         self.normalise(self.root, usedrafts=usedrafts)
 
     def _copynode(self, n, parent=None):
-        res = n.copy()
+        res = copy.copy(n)
         for a in ('contentHash', 'attrHash', 'comments', 'commentsafter', 'parent', 'document'):
             if hasattr(n, a):
                 setattr(res, a, getattr(n, a, None))
-- 
2.43.0


From 24f015f5c8f3902bc629283f8dca6ccacf5d439d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:18 +0000
Subject: [PATCH 014/111] fix: pass on the attributes in subelement()

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index d05f86a..5b5c93a 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -215,7 +215,7 @@ class ETWriter(object):
         """ Create a new SubElement and do localns replacement as in ns:tag -> {url}tag"""
         tag = self._reverselocalns(tag)
         kw = {self._reverselocalns(k): v for k, v in kw.items() if v is not None}
-        return et.SubElement(parent, tag, **k)
+        return et.SubElement(parent, tag, kw)
 
 
 def etwrite(et, write, topns = True, namespaces = None):
-- 
2.43.0


From 7251a567671f9f83fc5d82992e5492c9f7c6597c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:18 +0000
Subject: [PATCH 015/111] fix: allow / in attribute values and namespaces in a
 path

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 5b5c93a..35da280 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -673,7 +673,7 @@ class Ldml(ETWriter):
         if path.startswith("/"):
             raise SyntaxError
         steps = []
-        for s in path.split("/"):
+        for s in re.findall(r"(?:\[[^\]]*\]|\{[^}]*\}|[^/\[{])+", path):
             parts = re.split(r"\[(.*?)\]", s)
             tag = parts.pop(0)
             tag = self._reverselocalns(tag)
-- 
2.43.0


From 2076a1bd1a782703c1d5e6b916e2796f42aea864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 016/111] fix: do not remember namespaces from one document
 written to the next

---
 lib/sldr/ldml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 35da280..07fb073 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -138,6 +138,7 @@ class ETWriter(object):
         if base is None:
             base = self.root
             write('<?xml version="1.0" encoding="utf-8"?>\n')
+            namespaces = dict(namespaces)
             namespaces['http://www.w3.org/XML/1998/namespace'] = 'xml'
         (tag, q, ns) = self._localisens(base.tag)
         localattribs = {}
-- 
2.43.0


From 89cadc6ea6bdc70e9e7cb59aefc4e366b3e0e055 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 017/111] fix: write ]]> inside cdata, and -- inside comments,
 as well formed xml

---
 lib/sldr/ldml.py | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 07fb073..08fcb97 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -115,6 +115,10 @@ class ETWriter(object):
         ''' Turn key characters into entities'''
         return re.sub('['+"".join(base.keys())+"]", lambda m: base[m.group(0)], txt)
 
+    def _protectcomment(self, txt):
+        ''' -- may not occur in a comment, nor - at its end '''
+        return re.sub(r'-(?=-|$)', '- ', txt)
+
     def _nsprotectattribs(self, attribs, localattribs, namespaces):
         ''' Prepare attributes for output by protecting, converting ns: form
             and collecting any xmlns attributes needing to be added'''
@@ -159,7 +163,7 @@ class ETWriter(object):
                     localattribs['xmlns:'+lq] = lns
         self._nsprotectattribs(getattr(base, 'attrib', None), localattribs, namespaces)
         for c in getattr(base, 'comments', []):
-            write('{}<!--{}-->\n'.format(indent, c))
+            write('{}<!--{}-->\n'.format(indent, self._protectcomment(c)))
         write('{}<{}'.format(indent, tag))
         if len(localattribs):
             def getorder(x):
@@ -177,12 +181,12 @@ class ETWriter(object):
             if tag not in self.takesCData:
                 t = self._protect(base.text.replace('\n', '\n' + indent), base=_elementprotect)
             else:
-                t = "<![CDATA[\n\t" + indent + base.text.replace('\n', '\n\t' + indent) + "\n" + indent + "]]>"
+                t = "<![CDATA[\n\t" + indent + base.text.replace(']]>', ']]]]><![CDATA[>').replace('\n', '\n\t' + indent) + "\n" + indent + "]]>"
             write('>{}</{}>\n'.format(t, tag))
         else:
             write('/>\n')
         for c in getattr(base, 'commentsafter', []):
-            write('{}<!--{}-->\n'.format(indent, c))
+            write('{}<!--{}-->\n'.format(indent, self._protectcomment(c)))
 
     def save_as(self, fname, base = None, indent = '', topns = True, namespaces = {}):
         """ A more comfortable serialize_xml using a filename"""
-- 
2.43.0


From 2f9e7b3fc01a0aaeb3f54a1aae633d287cbfb56c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 018/111] fix: keep tabs and line breaks in attribute values

---
 lib/sldr/ldml.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 08fcb97..60cfdfe 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -56,6 +56,9 @@ _elementprotect = {
 _attribprotect = dict(_elementprotect)
 _attribprotect['"'] = '&quot;'
 _attribprotect["'"] = '&apos;'
+_attribprotect["\t"] = '&#9;'
+_attribprotect["\n"] = '&#10;'
+_attribprotect["\r"] = '&#13;'
 
 _basenamespaces = {
     'urn://www.sil.org/ldml/0.1':           'sil',
-- 
2.43.0


From 986c517a50e2b7a6c8cb2beec4ce3e4564d8c17b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:34 +0000
Subject: [PATCH 019/111] fix: read the text of a fallback element

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 60cfdfe..63cf49f 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -752,7 +752,7 @@ class Ldml(ETWriter):
             self.__class__.ReadSupplementalData()
         fall = self.root.find('fallback')
         if fall is not None:
-            return fall.split()
+            return fall.text.split()
         elif thislangtag in self.parentLocales:
             return self.parentLocales[thislangtag]
         else:
-- 
2.43.0


From 9c62488168db99d141ad7f255b557dc7189b6f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:48 +0000
Subject: [PATCH 020/111] fix: keep text that follows a comment

---
 lib/sldr/ldml.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 63cf49f..2b6cc29 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -468,9 +468,15 @@ class Ldml(ETWriter):
                         self.root = elem
                     curr = elem
             elif elem.tag == '!--':
-                if curr is not None:
-                    curr.remove(elem)
+                continue        # removed at the end of its parent, once it has its tail
             else:
+                for c in [x for x in elem if x.tag == '!--']:
+                    i = list(elem).index(c)
+                    if c.tail and i > 0:
+                        elem[i-1].tail = (elem[i-1].tail or "") + c.tail
+                    elif c.tail:
+                        elem.text = (elem.text or "") + c.tail
+                    elem.remove(c)
                 if len(comments) and len(elem):
                     elem[-1].commentsafter = comments
                     comments = []
-- 
2.43.0


From 1c2d6c6508b34d0403070b68287cef86b4ed394a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:48 +0000
Subject: [PATCH 021/111] fix: keep the order of elements whose order is
 significant

---
 lib/sldr/ldml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 2b6cc29..4344358 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -776,7 +776,12 @@ class Ldml(ETWriter):
                 return self.attributeOrder.get(base.tag, {}).get(x, self.maxAts)
             def cmpat(x, y):
                 return cmp(getorder(x), getorder(y)) or cmp(x, y)
+            # serial elements stay in the order they are in, special merely may occur more than once
+            serials = [x.tag for x in base if x.tag in self.serialElements and x.tag != 'special']
+            serialpos = min([self.elementOrder.get(base.tag, {}).get(t, self.maxEls) for t in serials], default=0)
             def keyel(x):
+                if x.tag in serials:
+                    return [serialpos, '']
                 xl = self._sortedattrs(x)
                 res = [self.elementOrder.get(base.tag, {}).get(x.tag, self.maxEls), x.tag]
                 for k, a in ((l, x.get(l)) for l in xl):
-- 
2.43.0


From c910b8e7bf8d576cfe367e444e6c0f6fbb7c4baa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:25:48 +0000
Subject: [PATCH 022/111] fix: do not extend the alt of a nested alternate
 every time it is written

---
 lib/sldr/ldml.py | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 4344358..c24f1db 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -896,11 +896,10 @@ class Ldml(ETWriter):
             if draft and (len(n) or draft == self.default_draft) and n.tag != "{" + self.silns + "}identity":
                 del n.attrib['draft']
             offset = 0
-            alt = n.get('alt', '')
             for (i, c) in enumerate(list(n)):
                 if not hasattr(c, 'alternates'): continue
                 for a in sorted(c.alternates.keys()):
-                    c.alternates[a].set('alt', (alt+"-"+a if alt else a))
+                    c.alternates[a].set('alt', a)
                     offset += 1
                     n.insert(i + offset, c.alternates[a])
                     c.alternates[a].tempnode = True
-- 
2.43.0


From 515486a84b62f796cc5a90efa12f930872f28327 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:26:03 +0000
Subject: [PATCH 023/111] fix: read a document in which everything is inherited

---
 lib/sldr/ldml.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index c24f1db..556653c 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -481,12 +481,12 @@ class Ldml(ETWriter):
                     elem[-1].commentsafter = comments
                     comments = []
                 curr = getattr(elem, 'parent', None)
-                if not uparrows:
+                if not uparrows and curr is not None:
                     if elem.text == "↑↑↑" or \
                                 (getattr(elem, 'hasdeletedchild', False) and len(elem) == 0):
                         curr.remove(elem)
                         curr.hasdeletedchild = True
-                    elif curr is not None:
+                    else:
                         curr.hasdeletedchild = False
         fh.close()
         self._analyse()
-- 
2.43.0


From 38e11f6d90e0fd32e7c6e04ba70cf011b7ec3627 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:30:51 +0000
Subject: [PATCH 024/111] fix: keep no-break spaces at the ends of element text

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 556653c..03251e4 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -793,7 +793,7 @@ class Ldml(ETWriter):
             children = sorted(base, key=keyel)
             base[:] = children
         if base.text:
-            t = base.text.strip()
+            t = base.text.strip(' \t\r\n')       # not other spaces, which may be all the content there is
             base.text = re.sub(r'[ \t]*\n[ \t]*', '\n', t)       # content hash has text in lines
         base.tail = None
         if usedrafts or addguids:
-- 
2.43.0


From 3948c8dce1b8cf01eb6c3827cf48fb80275fc999 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:17 +0000
Subject: [PATCH 025/111] fix: order elements by what distinguishes them before
 their draft

---
 lib/sldr/ldml.py | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 03251e4..6e883d6 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -781,15 +781,16 @@ class Ldml(ETWriter):
             serialpos = min([self.elementOrder.get(base.tag, {}).get(t, self.maxEls) for t in serials], default=0)
             def keyel(x):
                 if x.tag in serials:
-                    return [serialpos, '']
-                xl = self._sortedattrs(x)
+                    return [[serialpos, ''], '']
+                # draft last: it may well not be written
+                xl = [a for a in self._sortedattrs(x) if a != 'draft']
                 res = [self.elementOrder.get(base.tag, {}).get(x.tag, self.maxEls), x.tag]
                 for k, a in ((l, x.get(l)) for l in xl):
                     if x.tag in self.attribvals and k in self.attribvals[x.tag]:
                         res += (k, self.attribvals[x.tag][k].get(a, "{}{}".format(len(self.attribvals[x.tag][k]), a)))
                     else:
                         res += (k, a.lower())
-                return res
+                return [res, x.get('draft', '')]
             children = sorted(base, key=keyel)
             base[:] = children
         if base.text:
-- 
2.43.0


From 0b22d86fd6f97d9533a50a49059953bc3b1e3a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:36:15 +0000
Subject: [PATCH 026/111] fix: write elements in a default or unknown namespace
 in that namespace

---
 lib/sldr/ldml.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 6e883d6..1147b2a 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -94,23 +94,26 @@ class ETWriter(object):
 
     def __init__(self, et, namespaces = None, attributeOrder = {}, takesCData = set()):
         self.root = et
-        if namespaces is not None:
-            self.namespaces = namespaces
-        if self.namespaces is None:
-            self.namespaces = {'http://www.w3.org/XML/1998/namespaces': 'xml'}
+        self.namespaces = dict(namespaces or {})
+        self.namespaces['http://www.w3.org/XML/1998/namespace'] = 'xml'
         self.attributeOrder = attributeOrder
         self.takesCData = takesCData
 
+    def _nsprefix(self, ns):
+        ''' The prefix of a namespace, making one up if it has none '''
+        while not self.namespaces.get(ns, ''):
+            self.nscount += 1
+            qname = 'ns' + str(self.nscount)
+            if qname not in self.namespaces.values():
+                self.namespaces[ns] = qname
+        return self.namespaces[ns]
+
     def _localisens(self, tag):
         ''' Convert {url}localname into ns:localname'''
         if tag[0] == '{':
             ns, localname = tag[1:].split('}', 1)
-            qname = self.namespaces.get(ns, '')
-            if qname:
-                return ('{}:{}'.format(qname, localname), qname, ns)
-            else:
-                self.nscount += 1
-                return (localname, 'ns' + str(self.nscount), ns)
+            qname = self._nsprefix(ns)
+            return ('{}:{}'.format(qname, localname), qname, ns)
         else:
             return (tag, '', None)
 
@@ -453,7 +456,11 @@ class Ldml(ETWriter):
         parser.parser.CommentHandler = doComment
         for event, elem in et.iterparse(fh, events=('start', 'start-ns', 'end'), parser=parser):
             if event == 'start-ns':
-                self.namespaces[elem[1]] = elem[0]
+                # a prefix stands for one namespace throughout what is written
+                if elem[0] and elem[1] not in self.namespaces and elem[0] not in self.namespaces.values():
+                    self.namespaces[elem[1]] = elem[0]
+                elif elem[1]:
+                    self._nsprefix(elem[1])
             elif event == 'start':
                 elem.document = self
                 if elem.tag == '!--':
-- 
2.43.0


From b998668de000f9238a9cb17d4f82ff7ec8893382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 027/111] fix: look at the alternates themselves for a text to
 ensure

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 1147b2a..37cfc4c 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -721,7 +721,7 @@ class Ldml(ETWriter):
             curr = newcurr
             newcurr = []
             for job in curr:
-                extras = [] if draft is None or not hasattr(job, 'alternates') else job.alternates.keys()
+                extras = [] if draft is None or not hasattr(job, 'alternates') else list(job.alternates.values())
                 for j in itertools.chain([job], extras):
                     if j.text == text:
                         if draft is not None and self.get_draft(j) > draftratings.get(draft, len(draftratings)):
-- 
2.43.0


From cc25b640dc1362fc428085fb875b42ba6a3b474f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 028/111] fix: keep every alternate, and the best at the front,
 when a draft changes

---
 lib/sldr/ldml.py | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 37cfc4c..0e755ee 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -564,21 +564,18 @@ class Ldml(ETWriter):
     def _find_best(self, node, threshold=len(draftratings), alt=None):
         ''' Find the best alternate in node. The alt parameter chooses that alt
             if it is a possible winner'''
-        maxr = len(draftratings)
         if not hasattr(node, 'alternates'):
             return None
         res = None
         if alt is not None:
             bestalt = node.alternates.get(alt, None)
             if bestalt is not None:
-                bestalt = draftratings.get(bestalt.get('draft', None), maxr)
-            else:
-                bestalt = None
+                bestalt = self.get_draft(bestalt)
         else:
             bestalt = None
 
         for k, v in node.alternates.items():
-            d = draftratings.get(v.get('draft', self.use_draft), maxr)
+            d = self.get_draft(v)
             if d < threshold:
                 res = k
                 threshold = d
@@ -592,9 +589,11 @@ class Ldml(ETWriter):
         oalt = getattr(old, 'alternates', {})
         if nalt is not None:
             old.alternates = nalt
+        elif hasattr(old, 'alternates'):
+            del old.alternates
         if oalt is not None:
             new.alternates = oalt
-        if alt is None:
+        if alt is None or new.alternates.get(alt, new) is not new:  # taken by another alternate
             alt = new.get('alt', None)
         elif 'alt' in new.attrib and new.attrib['alt'] in new.alternates:
             del new.alternates[new.attrib['alt']]
@@ -612,8 +611,13 @@ class Ldml(ETWriter):
     def change_draft(self, node, draft, alt=None):
         ''' Change the draft on a node, moving it in the alts hierarchy if necessary. '''
         alt = self.alt(alt)
-        best = self._find_best(node, draftratings.get(draft, len(draftratings)), alt=alt)
         node.set('draft', draft)
+        for head in node.parent:
+            if any(v is node for v in getattr(head, 'alternates', {}).values()):
+                if self.get_draft(node) < self.get_draft(head):
+                    return self._promote(head, node)
+                return node
+        best = self._find_best(node, self.get_draft(node), alt=alt)
         if best is None:
             return node
         elif alt is None:
-- 
2.43.0


From 18796409523948891d5ba3031f9de40e0699c24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 029/111] fix: put a better new element in front of one with no
 draft of its own

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 0e755ee..4a49921 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -528,7 +528,7 @@ class Ldml(ETWriter):
             if len(equivs):
                 if 'alt' not in e.attrib:
                     e.set('alt', alt)
-                newhead = self._add_alt_leaf(equivs[0], e, default=e.get('draft', None), leaf=True, alt=alt)
+                newhead = self._add_alt_leaf(equivs[0], e, default=self.default_draft, leaf=True, alt=alt)
                 return e if returnnew else newhead
         parent.append(e)
         return e
-- 
2.43.0


From 0aad993d2be7b19a97324d0b135b7438e2d0f9f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:38 +0000
Subject: [PATCH 030/111] fix: remove an alternate found by its path

---
 lib/sldr/ldml.py | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 4a49921..eeae355 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -748,7 +748,16 @@ class Ldml(ETWriter):
         newcurr, steps = self._process_path(path, action="remove", **kw)
         if len(newcurr):
             for c in newcurr:
-                c.parent.remove(c)
+                for head in c.parent:
+                    alts = getattr(head, 'alternates', {})
+                    for k in [k for k, v in alts.items() if v is c]:
+                        del alts[k]
+                        break
+                    else:
+                        continue
+                    break
+                else:
+                    c.parent.remove(c)
         return newcurr
 
     def _invertns(self, ns):
-- 
2.43.0


From 6462f2062e3e972c8f5c853a45ee0687ccddbe37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:38:56 +0000
Subject: [PATCH 031/111] fix: find elements at any depth with // in a path

---
 lib/sldr/ldml.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index eeae355..88d9d70 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -655,6 +655,8 @@ class Ldml(ETWriter):
                 tag, attrs = (p, {})
             if tag == ".":
                 newcurr = curr
+            elif tag == "":     # x//y
+                newcurr = list({id(e): e for job in curr for e in job.iter()}.values())
             else:
                 for job in curr:
                     for c in job:
@@ -698,7 +700,7 @@ class Ldml(ETWriter):
         if path.startswith("/"):
             raise SyntaxError
         steps = []
-        for s in re.findall(r"(?:\[[^\]]*\]|\{[^}]*\}|[^/\[{])+", path):
+        for s in re.findall(r"(?:\[[^\]]*\]|\{[^}]*\}|[^/\[{])+|(?<=/)(?=/)", path):
             parts = re.split(r"\[(.*?)\]", s)
             tag = parts.pop(0)
             tag = self._reverselocalns(tag)
-- 
2.43.0


From 712e1dbba3508822835cf35d3db5196372220d86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:18 +0000
Subject: [PATCH 032/111] fix: do not let a worse new alternate take over a
 better one of that name

---
 lib/sldr/ldml.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 88d9d70..a936b11 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -526,6 +526,11 @@ class Ldml(ETWriter):
             self._calc_hashes(e, self.useDrafts)
             equivs = [x for x in parent if x.attrHash == e.attrHash]
             if len(equivs):
+                alts = getattr(equivs[0], 'alternates', {})
+                basealt, n = alt, 1
+                while alt in alts and self.get_draft(alts[alt]) < self.get_draft(e):
+                    n += 1
+                    alt = basealt + str(n)
                 if 'alt' not in e.attrib:
                     e.set('alt', alt)
                 newhead = self._add_alt_leaf(equivs[0], e, default=self.default_draft, leaf=True, alt=alt)
-- 
2.43.0


From 3c61adea27714f2be480fa5805e4f0b2b3126bdd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:20 +0000
Subject: [PATCH 033/111] fix: write attributes in a namespace in their place
 in the order

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index a936b11..ef4dec1 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -139,7 +139,7 @@ class ETWriter(object):
     def _sortedattrs(self, n, attribs=None):
         ''' Sorts attributes into appropriate attributes order'''
         def getorder(x):
-            return self.attributeOrder.get(n.tag, {}).get(x, self.maxAts)
+            return self.attributeOrder.get(n.tag, {}).get(reverse_localns(x), self.maxAts)
         return sorted((attribs if attribs is not None else n.keys()), key=lambda x:(getorder(x), x))
 
     def serialize_xml(self, write, base = None, indent = '', topns = True, namespaces = {}):
-- 
2.43.0


From 13dc220d6d9201ef8907e1d0b898b8c0cb938fdb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:20 +0000
Subject: [PATCH 034/111] fix: keep alternates when normalising a document
 again

---
 lib/sldr/ldml.py | 29 ++++++++++++++++++-----------
 1 file changed, 18 insertions(+), 11 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index ef4dec1..5e96f11 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -829,10 +829,12 @@ class Ldml(ETWriter):
         if usedrafts:        # pack up all alternates
             temp = {}
             for c in base:
-                a = c.get('alt', None)
-                if c.attrHash not in temp or a not in temp[c.attrHash] \
-                        or self.get_draft(c, default=self.default_draft) < self.get_draft(temp[c.attrHash][a], default=self.default_draft):
-                    temp.setdefault(c.attrHash, {})[a] = c
+                if c.tag in self.serialElements:
+                    continue
+                for a, n in [(c.get('alt', None), c)] + list(getattr(c, 'alternates', {}).items()):
+                    if c.attrHash not in temp or a not in temp[c.attrHash] \
+                            or self.get_draft(n, default=self.default_draft) < self.get_draft(temp[c.attrHash][a], default=self.default_draft):
+                        temp.setdefault(c.attrHash, {})[a] = n
             for k, v in temp.items():
                 if None in v:
                     resk = None
@@ -842,14 +844,19 @@ class Ldml(ETWriter):
                 for nk in list(v.keys()):
                     if nk is not resk:
                         del v[nk]
+                for n in newalts.values():
+                    if hasattr(n, 'alternates'):
+                        del n.alternates
                 v[resk].alternates = newalts
-            tbase = list(base)
-            for c in tbase:
-                if c.tag in self.serialElements:
-                    continue
-                a = c.get('alt', None)
-                if a not in temp[c.attrHash] or id(temp[c.attrHash][a]) != id(c):
-                    base.remove(c)
+            children = []
+            for c in base:
+                if c.tag not in self.serialElements:
+                    head = list(temp[c.attrHash].values())[0]
+                    if head is not c and any(head is x for x in list(base) + children):
+                        continue
+                    c = head
+                children.append(c)
+            base[:] = children
 
     def _analyse(self):
         """ Pull out key information from the ldml for its processing."""
-- 
2.43.0


From 0a356193ed8733cbf88496dd533a805c84e2f7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:04 +0000
Subject: [PATCH 035/111] fix: keep an element promoted between two saves

---
 lib/sldr/ldml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 5e96f11..b09dabe 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -943,6 +943,7 @@ class Ldml(ETWriter):
             n = base if base is not None else self.root
             for c in list(n):
                 if hasattr(c, 'tempnode') and c.tempnode:
+                    c.tempnode = False
                     n.remove(c)
 
     def get_draft(self, e, default=None):
-- 
2.43.0


From ff0314543e7ae8563d87e7ed59c37f4fb8c1b060 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:23 +0000
Subject: [PATCH 036/111] fix: do not add an alternate of the same name as the
 element in front

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index b09dabe..b56a1e1 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -528,7 +528,7 @@ class Ldml(ETWriter):
             if len(equivs):
                 alts = getattr(equivs[0], 'alternates', {})
                 basealt, n = alt, 1
-                while alt in alts and self.get_draft(alts[alt]) < self.get_draft(e):
+                while alt == equivs[0].get('alt') or (alt in alts and self.get_draft(alts[alt]) < self.get_draft(e)):
                     n += 1
                     alt = basealt + str(n)
                 if 'alt' not in e.attrib:
-- 
2.43.0


From be39923c0d941c3f0797de096eee09b07476601c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:58:46 +0000
Subject: [PATCH 037/111] fix: remove only the elements of the draft asked for,
 not their alternates

---
 lib/sldr/ldml.py | 18 ++++++++----------
 1 file changed, 8 insertions(+), 10 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index b56a1e1..95c432a 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -754,16 +754,14 @@ class Ldml(ETWriter):
             Takes same parameters as ensure_path. Returns nodes deleted. """
         newcurr, steps = self._process_path(path, action="remove", **kw)
         if len(newcurr):
-            for c in newcurr:
-                for head in c.parent:
-                    alts = getattr(head, 'alternates', {})
-                    for k in [k for k, v in alts.items() if v is c]:
-                        del alts[k]
-                        break
-                    else:
-                        continue
-                    break
-                else:
+            # alternates come after what they are alternates to
+            for c in reversed(newcurr):
+                if kw.get('matchdraft', None) is not None and getattr(c, 'alternates', {}):
+                    self._promote(c, c.alternates[self._find_best(c)])  # only this one is to go
+                alts = [h.alternates for h in c.parent if any(v is c for v in getattr(h, 'alternates', {}).values())]
+                for k in [k for a in alts for k, v in a.items() if v is c]:
+                    del alts[0][k]
+                if not alts:
                     c.parent.remove(c)
         return newcurr
 
-- 
2.43.0


From ef2ccee7c447497c249cc498377d2f0eed87e864 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:07:41 +0000
Subject: [PATCH 038/111] fix: merge without a default draft being given

---
 lib/sldr/ldml_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 18b26a4..f4b483a 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -191,7 +191,7 @@ class LdmlMerge(Ldml):
            Returns True if the merge did the work."""
         res = False
         if default is None:
-            default = base.default_draft
+            default = self.default_draft
         # if base != target && base better than target
         if base is not None and base.contentHash != target.contentHash and base.text and self.get_draft(base) < self.get_draft(target, default):
             res = True
-- 
2.43.0


From 324c9625ead987a93a3f00844b8633e5cfdbcaa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:14:38 +0000
Subject: [PATCH 039/111] fix: copy an element into an alternate when merging

---
 lib/sldr/ldml_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index f4b483a..44fae07 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -272,7 +272,7 @@ class LdmlMerge(Ldml):
 
     
     def _add_alt(self, target, origin, default='unconfirmed'):
-        self._add_alt_leaf(target, origin.copy(),
+        self._add_alt_leaf(target, self._copynode(origin),
                 default=default, leaf=origin.contentHash is not None,
                 alt = self.alt())
 
-- 
2.43.0


From 233764b548db2e01d1e22b03753ae82855559e5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:54 +0000
Subject: [PATCH 040/111] fix: merge the contents of elements that both sides
 added

---
 lib/sldr/ldml_merge.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 44fae07..e6f3062 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -287,8 +287,11 @@ class LdmlMerge(Ldml):
         # other and base can be None
         for t in list(this):       # go through children merging them
             if t.mergeBase is None:
-                if self.useDrafts and t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:
-                    self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
+                if t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:
+                    if len(t) or len(t.mergeOther):
+                        res |= self.merge(t.mergeOther, None, t, default=default, copycomments=copycomments)
+                    elif self.useDrafts:
+                        res |= self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
                 continue
             if t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:     # other differs
                 if t.mergeBase.contentHash == t.contentHash:   # base doesn't
@@ -327,7 +330,9 @@ class LdmlMerge(Ldml):
         oattrs = set(other.keys() if other is not None else [])
         for k in list(this.keys()):                                  # go through our attributes
             if k in oattrs:
-                if k in base.attrib and base.get(k) == this.get(k) and this.get(k) != other.get(k):
+                if base is None:
+                    pass                                            # no telling who changed it
+                elif k in base.attrib and base.get(k) == this.get(k) and this.get(k) != other.get(k):
                     res = True
                     this.set(k, other.get(k))                       # t == b && t != o
                 elif this.get(k) != other.get(k):
-- 
2.43.0


From 15a4d5ffe94296373538e4842d87fbd8802f0584 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:54 +0000
Subject: [PATCH 041/111] fix: keep the text of a worse draft as an alternate
 when merging with what the other side removed

---
 lib/sldr/ldml_merge.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index e6f3062..3fa46b3 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -196,6 +196,10 @@ class LdmlMerge(Ldml):
         if base is not None and base.contentHash != target.contentHash and base.text and self.get_draft(base) < self.get_draft(target, default):
             res = True
             self._add_alt(base, target, default=default)  # add target as alt of base
+            if not hasattr(target, 'alternates'):
+                target.alternates = {}
+            for k, v in base.alternates.items():
+                target.alternates.setdefault(k, v)
             target[:] = base                                # replace content of target
             for a in ('text', 'contentHash', 'comments', 'commentsafter'):
                 if hasattr(base, a):
-- 
2.43.0


From 0cfffcf1f329311f7a009aecbdead9ff113a6bb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:18:21 +0000
Subject: [PATCH 042/111] fix: do not report a clash over an attribute only one
 side changed

---
 lib/sldr/ldml_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 3fa46b3..c9c2a6b 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -339,7 +339,7 @@ class LdmlMerge(Ldml):
                 elif k in base.attrib and base.get(k) == this.get(k) and this.get(k) != other.get(k):
                     res = True
                     this.set(k, other.get(k))                       # t == b && t != o
-                elif this.get(k) != other.get(k):
+                elif this.get(k) != other.get(k) and base.get(k) != other.get(k):
                     self.clash_attrib(k, this.get(k), other.get(k), base.get(k), this, other, base, usedrafts=self.useDrafts)    # t != o
                     res = True
                 oattrs.remove(k)
-- 
2.43.0


From f6c182b6806191185ab426d5f0425d7aa97663a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:17 +0000
Subject: [PATCH 043/111] fix: keep the text of a worse draft as an alternate
 whatever the default draft when merging

---
 lib/sldr/ldml_merge.py | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index c9c2a6b..afbbd33 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -195,11 +195,15 @@ class LdmlMerge(Ldml):
         # if base != target && base better than target
         if base is not None and base.contentHash != target.contentHash and base.text and self.get_draft(base) < self.get_draft(target, default):
             res = True
-            self._add_alt(base, target, default=default)  # add target as alt of base
-            if not hasattr(target, 'alternates'):
-                target.alternates = {}
-            for k, v in base.alternates.items():
-                target.alternates.setdefault(k, v)
+            alts = dict(getattr(base, 'alternates', {}))
+            alts.update(getattr(target, 'alternates', {}))
+            alt, n = self.alt(), 1
+            while alt in alts:
+                n += 1
+                alt = self.alt() + str(n)
+            alts[alt] = self._copynode(target)          # keep target as alt of base
+            alts[alt].set('alt', alt)
+            target.alternates = alts
             target[:] = base                                # replace content of target
             for a in ('text', 'contentHash', 'comments', 'commentsafter'):
                 if hasattr(base, a):
-- 
2.43.0


From 2222197b16f08b4978f57d43d9806836a620df38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:17 +0000
Subject: [PATCH 044/111] fix: report a merge that adds elements as a change

---
 lib/sldr/ldml_merge.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index afbbd33..4244193 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -291,6 +291,7 @@ class LdmlMerge(Ldml):
         if this == None: this = self.root
         if other is not None and hasattr(other, 'root'): other = other.root
         if base is not None and hasattr(base, 'root'): base = base.root
+        before = list(this)
         self._align(this, other, base)
         # other and base can be None
         for t in list(this):       # go through children merging them
@@ -317,6 +318,7 @@ class LdmlMerge(Ldml):
                 res = True
             elif self.useDrafts:
                 res |= self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
+        res |= list(this) != before
         if base is not None and this.text == base.text:
             if other is not None:
                 res = res or (this.text != other.text)
-- 
2.43.0


From 3aa203d27b9c531b668b13b9dc01433aaeda6f6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:22:17 +0000
Subject: [PATCH 045/111] fix: let the other side win over a removal when it is
 to win

---
 lib/sldr/ldml_merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 4244193..7951bd4 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -183,6 +183,7 @@ class LdmlMerge(Ldml):
                     del blist[newe.mergeBase.contentHash]
             else:
                 newe.mergeBase = None
+            newe.mergeNew = True
             newe.mergeOther = None     # don't do anything with this in merge()
             this.append(newe)
 
@@ -313,7 +314,7 @@ class LdmlMerge(Ldml):
                     res |= self.merge(t.mergeOther, t.mergeBase, t, default=default)        # could be a clash so recurse
                 elif self.useDrafts:       # base == other
                     res |= self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
-            elif t.mergeOther is None and (t.mergeBase.contentHash == t.contentHash or self.winner == "other"):
+            elif t.mergeOther is None and (t.mergeBase.contentHash == t.contentHash or (self.winner == "other" and not hasattr(t, 'mergeNew'))):
                 this.remove(t)
                 res = True
             elif self.useDrafts:
-- 
2.43.0


From d67e74b61a94a8c72eb399eb6a79bb92feb2de17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:28 +0000
Subject: [PATCH 046/111] fix: follow parent locales all the way up when
 flattening, and look for changes in all of them

---
 lib/sldr/ldml_merge.py | 40 ++++++++++++++++++++--------------------
 1 file changed, 20 insertions(+), 20 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 7951bd4..4ca786b 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -440,32 +440,32 @@ def flattenlocale(lname, dirs=[], rev='f', changed=set(),
         fallbacks = l.get_parent_locales(lname)
         if not len(fallbacks):
             fallbacks = [trimtag(lname)]
-        if 'root' not in fallbacks and lname != 'root':
-            fallbacks += ['root']
+        chain = []
+        for f in fallbacks:     # and the parents of those
+            while len(f) and f != 'root' and f not in chain:
+                chain.append(f)
+                f = l.parentLocales.get(f, [trimtag(f)])[0]
+        if lname != 'root':
+            chain.append('root')
         if len(changed):       # check against changed
             dome = False
-            for f in fallbacks:
+            for f in chain:
                 if f in changed:
                     dome = True
                     break
             if not dome: return None
-        dome = True
-        for f in fallbacks:    # apply each fallback
-            while len(f):
-                o = getldml(f, dirs)
-                if o is not None:
-                    os = getscript(o)
-                    if os is None or os == ls:
-                        if rev == 'r':
-                            l.difference(o)
-                            dome = False
-                            break   # only need one for unflatten
-                        else:
-                            if f == 'root':
-                                l.flag_nonroots()
-                            l.overlay(o)
-                f = trimtag(f)
-            if not dome: break
+        for f in chain:    # apply each fallback
+            o = getldml(f, dirs)
+            if o is not None:
+                os = getscript(o)
+                if os is None or os == ls:
+                    if rev == 'r':
+                        l.difference(o)
+                        break   # only need one for unflatten
+                    else:
+                        if f == 'root':
+                            l.flag_nonroots()
+                        l.overlay(o)
     if resolveAlias:
         l.resolve_aliases()
     if skipstubs and len(l.root) == 1 and l.root[0].tag == 'identity': return None
-- 
2.43.0


From 39142acd1a4d94dac83ad95a16a3aff53e5ee84f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:28 +0000
Subject: [PATCH 047/111] fix: keep the fonts of a locale itself when
 flattening, and take what other resources its parents have

---
 lib/sldr/ldml_merge.py | 36 ++++++++++++++----------------------
 1 file changed, 14 insertions(+), 22 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 4ca786b..1a3bd94 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -99,32 +99,24 @@ class LdmlMerge(Ldml):
     def _overlay_external_resources(self, other, this, usedrafts):
         """Handle sil:font fallback mechanism"""
         silfonttag = '{'+self.silns+'}font'
-        fonts = []
-        this = [x for x in this if x.attrHash == other.attrHash][0]
-        for t in list(this):
-            if t.tag == silfonttag:
-                fonts.append(t)
-                this.remove(t)
-        for o in other:
-            if o.tag == silfonttag:
-                types = o.get('types', '').split(' ')
+        matches = [x for x in this if x.attrHash == other.attrHash]
+        if not len(matches):
+            this.append(other)
+            return
+        this = matches[0]
+        def fonttypes(f):
+            return f.get('types', '').split() or ['default']
+        done = set(t for f in this if f.tag == silfonttag for t in fonttypes(f))
+        for o in list(other):
+            if o.tag == silfonttag:     # only for what there is no font yet
+                types = [t for t in fonttypes(o) if t not in done]
                 if not len(types):
-                    types = ['default']
-                for t in types:
-                    if t == 'default':
-                        fonts = []
-                        break
-                    else:
-                        for f in fonts:
-                            tt = f.get('types', 'default').split(' ')
-                            if t in tt:
-                                f.set('types', " ".join(x for x in tt if x != t))
-                        fonts = [x for x in fonts if x.get('types', '') != '']
+                    continue
+                if len(types) != len(fonttypes(o)):
+                    o.set('types', " ".join(types))
                 this.append(o)
             else:
                 self._overlay_child(o, this, usedrafts)
-        for f in fonts:
-            this.append(f)
 
     def flag_nonroots(self):
         """ Add @sil:modified="true" to collation elements"""
-- 
2.43.0


From 4e6f42504d888586643cec1cd86f47f013b18bf4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:35 +0000
Subject: [PATCH 048/111] fix: do not tell collations apart by whether they are
 marked as modified

---
 lib/sldr/ldml.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 95c432a..3cd09e7 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -323,6 +323,7 @@ class Ldml(ETWriter):
                         target[a] = set(localset)
             else:
                 cls.keys.update(e.get('attributes').split())
+        cls.keyContexts['collation'].discard('{'+cls.silns+'}modified')
         cls.keyContexts['{'+cls.silns+'}matched-pair'] = set(['open', 'close'])
         cls.keyContexts['{'+cls.silns+'}quotation'] = set(['level'])
         cls.keyContexts['{'+cls.silns+'}punctuation-pattern'] = set(['context', 'pattern'])
-- 
2.43.0


From 32b01f7024bd92010ba25bc9336e582cd6a7f380 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:48:35 +0000
Subject: [PATCH 049/111] fix: inherit the collations a locale lacks when
 flattening

---
 lib/sldr/ldml_merge.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 1a3bd94..096b4a1 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -77,7 +77,7 @@ class LdmlMerge(Ldml):
         other = getattr(other, 'root', other)
         for o in other:
             # simple if for now, if more use a dict
-            if o.tag in self.blocks:
+            if o.tag == 'identity':
                 continue
             if o.tag == '{'+self.silns+'}external-resources':
                 self._overlay_external_resources(o, this, usedrafts)
@@ -88,7 +88,7 @@ class LdmlMerge(Ldml):
         addme = True
         for t in filter(lambda x: x.attrHash == o.attrHash, this):
             addme = False
-            if o.contentHash != t.contentHash:
+            if o.contentHash != t.contentHash and o.tag not in self.blocks:
                 self.overlay(o, usedrafts=usedrafts, this=t)
                 if t.text == "↑↑↑" and o.text != "":
                     t.text = o.text
-- 
2.43.0


From 7d803d13818a15756d6ad6ee1137f5e0c0ffa159 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:51:42 +0000
Subject: [PATCH 050/111] fix: keep the identity when unflattening

---
 lib/sldr/ldml_merge.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 096b4a1..95eb277 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -58,6 +58,8 @@ class LdmlMerge(Ldml):
         if (not len(other) and not len(this)) or this.tag in self.blocks:
             return (other.contentHash == this.contentHash)
         for o in other:
+            if o.tag == 'identity':
+                continue
             for t in filter(lambda x: x.attrHash == o.attrHash, this):
                 if o.contentHash == t.contentHash or self.difference(o, this=t):
                     if hasattr(t, 'alternates') and hasattr(o, 'alternates'):
-- 
2.43.0


From 68374f069297a70c89a59624c88583ebe80fe91a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:54:49 +0000
Subject: [PATCH 051/111] fix: keep alternates the parent does not have when
 unflattening

---
 lib/sldr/ldml_merge.py | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 95eb277..57b9a0d 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -61,18 +61,17 @@ class LdmlMerge(Ldml):
             if o.tag == 'identity':
                 continue
             for t in filter(lambda x: x.attrHash == o.attrHash, this):
-                if o.contentHash == t.contentHash or self.difference(o, this=t):
-                    if hasattr(t, 'alternates') and hasattr(o, 'alternates'):
-                        for (k, v) in o.alternates.items():
-                            if k in t.alternates and v.contentHash == t.alternates[k].contentHash:
-                                del t.alternates[k]
-                        if len(t.alternates) == 0:
-                            this.remove(t)
-                    else:
+                if (o.contentHash == t.contentHash and not self._hasalternates(t)) or self.difference(o, this=t):
+                    oalts = getattr(o, 'alternates', {})
+                    if all(k in oalts and v.contentHash == oalts[k].contentHash
+                                for k, v in getattr(t, 'alternates', {}).items()):
                         this.remove(t)
                 break
         return not len(this) and (not this.text or this.text == other.text)
 
+    def _hasalternates(self, this):
+        return any(len(getattr(x, 'alternates', {})) for x in this.iter() if x is not this)
+
     def overlay(self, other, usedrafts=False, this=None):
         """Add missing information in self from other. Honours @draft attributes"""
         if this == None: this = self.root
-- 
2.43.0


From ed1e7ddacfd32e786665858e5132ec54f0decb22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:01 +0000
Subject: [PATCH 052/111] fix: leave out the fonts of a locale only if all are
 those of its parent when unflattening

---
 lib/sldr/ldml_merge.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 57b9a0d..7659320 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -57,8 +57,10 @@ class LdmlMerge(Ldml):
         # if empty elements, test .text and all the attributes
         if (not len(other) and not len(this)) or this.tag in self.blocks:
             return (other.contentHash == this.contentHash)
+        silfonttag = '{'+self.silns+'}font'
+        samefonts = set(o.contentHash for o in other if o.tag == silfonttag) == set(t.contentHash for t in this if t.tag == silfonttag)
         for o in other:
-            if o.tag == 'identity':
+            if o.tag == 'identity' or (o.tag == silfonttag and not samefonts):
                 continue
             for t in filter(lambda x: x.attrHash == o.attrHash, this):
                 if (o.contentHash == t.contentHash and not self._hasalternates(t)) or self.difference(o, this=t):
-- 
2.43.0


From c7e9f41b7629892c135e32d38fff569f61a73c55 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:08:50 +0000
Subject: [PATCH 053/111] fix: keep the alternates inside a collation when
 unflattening

---
 lib/sldr/ldml_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 7659320..663e3e2 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -56,7 +56,7 @@ class LdmlMerge(Ldml):
         other = getattr(other, 'root', other)
         # if empty elements, test .text and all the attributes
         if (not len(other) and not len(this)) or this.tag in self.blocks:
-            return (other.contentHash == this.contentHash)
+            return (other.contentHash == this.contentHash) and not self._hasalternates(this)
         silfonttag = '{'+self.silns+'}font'
         samefonts = set(o.contentHash for o in other if o.tag == silfonttag) == set(t.contentHash for t in this if t.tag == silfonttag)
         for o in other:
-- 
2.43.0


From 9912ba13fc0c16d3d423a9efe05f156df99abc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:38 +0000
Subject: [PATCH 054/111] fix: do not report a clash over the text of an empty
 element both sides filled

---
 lib/sldr/ldml_merge.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 663e3e2..5455dde 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -325,7 +325,7 @@ class LdmlMerge(Ldml):
                 this.text = None
                 this.contentHash = None
             if self.useDrafts: res |= self._merge_with_alts(base, other, this, default=default, copycomments=copycomments)
-        elif base is not None and other is not None and other.text != base.text:
+        elif base is not None and other is not None and (other.text or '') not in (base.text or '', this.text or ''):
             self.clash_text(this.text, other.text, (base.text if base is not None else None),
                                         this, other, base, usedrafts=self.useDrafts)
             if self.useDrafts:
-- 
2.43.0


From 9d19a77de56b7e19f73b518a90254ff68a95cb10 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:19 +0000
Subject: [PATCH 055/111] fix: give characters the DUCET does not list their
 implicit sort keys

---
 lib/sldr/collation.py | 27 +++++++++++++++++++++++++--
 1 file changed, 25 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 7e64c67..dbe6a45 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -40,6 +40,22 @@ def unescape(s):
     s = s.replace("''", "'")
     return s
 
+def implicitKey(c):
+    '''Sort key of a character that is not in the DUCET (see UTS #10)'''
+    i = ord(c)
+    if 0x17000 <= i <= 0x18AFF:
+        first, second = 0xFB00, i - 0x17000
+    else:
+        if not ud.name(c, "").startswith("CJK UNIFIED IDEOGRAPH"):
+            first = 0xFBC0
+        elif i < 0x10000:
+            first = 0xFB40 if 0x4E00 <= i <= 0x9FFF or 0xFA0E <= i <= 0xFA29 else 0xFB80
+        else:
+            first = 0xFB80
+        first += i >> 15
+        second = i & 0x7FFF
+    return [[first, second | 0x8000], [0x20, 0], [2, 0]]
+
 def ducetSortKey(d, k, extra=None, fn=None):
     '''Turn a sequence of sort keys for the given string into a single
         SortKey (array of 3 arrays)'''
@@ -60,8 +76,15 @@ def ducetSortKey(d, k, extra=None, fn=None):
             if k[:i] in d:
                 key = dlambda(k[:i])
         if key is None or not len(key):
-            i -= 1
-            continue
+            if i > 1:
+                i -= 1
+                continue
+            decomp = ud.normalize("NFD", k[0])
+            if decomp != k[0]:
+                k = decomp + k[1:]
+                i = len(k)
+                continue
+            key = implicitKey(k[0])
         try:
             res = [res[j]+list(key[j]) for j in range(3)]
         except IndexError:
-- 
2.43.0


From c378d6611c39aa431be2bbe338ff721e60642df5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:20 +0000
Subject: [PATCH 056/111] fix: compare and add sort keys consistently

---
 lib/sldr/collation.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index dbe6a45..461731a 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -168,8 +168,8 @@ class SortKey(list):
     """ List of subkeys for each level. Each subkey is a list of values """
     def add(self, other):
         if other is None:
-            return self[:]
-        return [a[0]+a[1] for a in zip_longest(self, other)]
+            return self.copy()
+        return self.__class__([a[0]+a[1] for a in zip_longest(self, other, fillvalue=[])])
 
     def append(self, other):
         self[:] = self.add(other)
@@ -179,13 +179,8 @@ class SortKey(list):
 
     def cmp(self, other):
         ''' Returns the level of the difference and negative if self < other '''
-        return diffLevel(other, self)
-        for i, z in enumerate(zip_longest(self, other)):
-            if z[0] < z[1]:
-                return -(i+1)
-            elif z[0] > z[1]:
-                return i+1
-        return 0
+        res = diffLevel(other, self)
+        return res if res < 4 else 0
 
     def __lt__(self, other):
         return self.cmp(other) < 0
@@ -203,7 +198,8 @@ class SortKey(list):
         return self.cmp(other) <= 0
 
     def __iadd__(self, other):
-        return self.append(other)
+        self.append(other)
+        return self
 
     def __ne__(self, other):
         return self.cmp(other) != 0
@@ -212,7 +208,7 @@ class SortKey(list):
         return self.__class__([v.copy() for v in self])
 
     def __hash__(self):
-        return hash(tuple(tuple(x) for x in self))
+        return hash(tuple(tuple(stripzero(x)) for x in self))
 
 
 class Collation(UserDict):
-- 
2.43.0


From b2b4835ef0df3f0f6577e64cbea682c14f32a0e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:21 +0000
Subject: [PATCH 057/111] fix: calculate the keys of elements whose base
 mentions elements without keys yet

---
 lib/sldr/collation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 461731a..f15403e 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -69,7 +69,7 @@ def ducetSortKey(d, k, extra=None, fn=None):
         singlechar = True
     while i > 0:
         if extra and k[:i] in extra:
-            key = extra[k[:i]].key
+            key = getattr(extra[k[:i]], 'key', None)
         else:
             key = fn(k[:i])
         if key is None or not len(key):
-- 
2.43.0


From 982aea9dcf92c47fbc3735e0264691c1f5a0dd08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:21 +0000
Subject: [PATCH 058/111] fix: unescape any tailoring escape, and each only
 once

---
 lib/sldr/collation.py | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index f15403e..f5e309a 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -35,10 +35,11 @@ def escape(s, allchars=False):
 
 def unescape(s):
     '''Parse tailoring escaped characters into normal Unicode'''
-    s = re.sub(r'(?:\\U([0-9A-F]{8})|\\u([0-9A-F]{4}))', lambda m: chr(int(m.group(m.lastindex), 16)), s, re.I)
-    s = re.sub(r'\\(.)', r'\1', s)
-    s = s.replace("''", "'")
-    return s
+    def char(m):
+        if m.group(0) == "''":
+            return "'"
+        return m.group(3) or chr(int(m.group(1) or m.group(2), 16))
+    return re.sub(r"\\U([0-9A-Fa-f]{8})|\\u([0-9A-Fa-f]{4})|\\(.)|''", char, s, flags=re.S)
 
 def implicitKey(c):
     '''Sort key of a character that is not in the DUCET (see UTS #10)'''
-- 
2.43.0


From 590b08761f1d8b51d71421743c2c4210759b20b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:20:23 +0000
Subject: [PATCH 059/111] fix: keep escaped syntax characters in tailorings as
 the characters they are

---
 lib/sldr/collation.py | 36 +++++++++++++++++++++---------------
 1 file changed, 21 insertions(+), 15 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index f5e309a..12ac1e6 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -57,6 +57,16 @@ def implicitKey(c):
         second = i & 0x7FFF
     return [[first, second | 0x8000], [0x20, 0], [2, 0]]
 
+def splitUnescaped(pattern, s):
+    '''Like re.split(), returning what matched as well, but leaving alone what is escaped'''
+    res = [""]
+    for m in re.finditer(r'\\.|(' + pattern + r')|.', s, flags=re.S):
+        if m.group(1):
+            res += [m.group(1), ""]
+        else:
+            res[-1] += m.group(0)
+    return res
+
 def ducetSortKey(d, k, extra=None, fn=None):
     '''Turn a sequence of sort keys for the given string into a single
         SortKey (array of 3 arrays)'''
@@ -226,31 +236,27 @@ class Collation(UserDict):
     def parse(self, string):
         """Parse LDML/ICU sort tailoring"""
         prefix = ""
-        string = re.sub(r'^#.*$', '', string, flags=re.M)
-        for n, run in enumerate(string.split('&')):
-            bits = [x.strip() for x in re.split(r'([<=]+)', run)]
-            m = re.match(r"^\s*&?\s*(?:\[before\s+(\d)\s*\]\s*)?(.*?)\s*$", unescape(bits[0]))
+        string = re.sub(r'(?:^|(?<=\s))#.*$', '', string, flags=re.M)
+        for n, run in enumerate(splitUnescaped('&', string)[::2]):
+            bits = [x.strip() for x in splitUnescaped('[<=]+', run)]
+            m = re.match(r"^\s*&?\s*(?:\[before\s+(\d)\s*\]\s*)?(.*?)\s*$", bits[0])
             if m:
-                base = m.group(2)
+                base = unescape(m.group(2))
                 before = 0
                 if m.group(1):
                     before = int(m.group(1))
             else:
                 continue
             for i in range(1, len(bits), 2):
-                s = re.sub(r'\s#.*$', '', bits[i], flags=re.M)
+                s = bits[i]
                 if s == '=': l = 4
                 else:
                     l = s.count('<')
-                k = re.sub(r'\s#.*$', '', bits[i+1], flags=re.M)
-                key = unescape(k)
-                exp = key.find("/")
-                expstr = ""
-                if exp > 0:
-                    expstr = key[exp+1:].strip()
-                    key = key[:exp].strip()
-                else:
-                    exp = None
+                exp = splitUnescaped('/', bits[i+1])
+                if not exp[0]:
+                    exp = [bits[i+1]]
+                key = unescape(exp[0].strip())
+                expstr = unescape("".join(exp[2:]).strip())
                 while key in self:
                     key += " "
                 self[key] = CollElement(base, l, before)
-- 
2.43.0


From 07a487981792d10b5baf4d911c2f52d79a769547 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:04 +0000
Subject: [PATCH 060/111] fix: do not repeat the expansion of an element in
 those that follow it

---
 lib/sldr/collation.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 12ac1e6..0021c61 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -595,6 +595,7 @@ class CollElement(object):
         self.level = level          # following (or before) parent at what level
         self.before = before        # before level (should be the same a .level
         self.exp = ""               # expansion. Everything after the / (e in a/e)
+        self.inherit = False        # whether exp comes from the base and so applies to elements based on us
         self.prefix = ""            # everything before the / in an expansion (a in a/e)
         self.shortkey = ""          # The key before expansion added (used by children)
         # self.key = None           # calculated sort key to interact with ducet (not the ducet key)
@@ -641,6 +642,7 @@ class CollElement(object):
             return
         self.exp = self.base[l:]
         self.base = self.base[:l]
+        self.inherit = True
         
     def sortkey(self, collations, ducetDict, inc, beforeshift, force=False):
         """ Calculate a SortKey """
@@ -656,8 +658,9 @@ class CollElement(object):
         # Update the copied base SortKey to immediately follow the base
         if self.level < 4 :
             basekey[self.level-1][-1] += inc if not self.before or self.before != self.level else -beforeshift 
-        if not self.exp and b is not None and b.exp:
+        if not self.exp and b is not None and b.exp and b.inherit:
             self.exp = b.exp
+            self.inherit = True
         if self.exp:
             expkey = ducetSortKey(ducetDict, self.exp, extra=collations)
             if expkey > basekey:
-- 
2.43.0


From eff5e4daa1ae8c086d75e527e42a66ce939da8ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:09 +0000
Subject: [PATCH 061/111] fix: chain a tailored element only to what it is
 based on when writing a tailoring

---
 lib/sldr/collation.py | 15 +++++++++++++--
 1 file changed, 13 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 0021c61..cf21d19 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -291,6 +291,16 @@ class Collation(UserDict):
             return False
         return cmpKey(av.key, bv.key, level)
 
+    def _follows(self, v, k):
+        '''Whether what sorts directly after k at the level of v sorts directly after the base of v'''
+        while k != v.base:
+            e = self.get(k, None)
+            if e is None or e.level <= v.level or e.before:
+                return False
+            k = e.base
+        e = self.get(k, None)
+        return e is not None and (not e.exp or e.inherit or e.order[0] == v.order[0])
+
     def asICU(self, wrap=0, withkeys=False, ordering=lambda x:x[1].shortkey): 
         # needs fix to factor in characters coming before 'a' syntax, see llu.xml in sldr for an example of what that's supposed to look like. this needs to apply to all strengths of sorting
         """Returns ICU tailoring syntax of this Collation"""
@@ -299,7 +309,7 @@ class Collation(UserDict):
         res = ""
         loc = 0
         eqchain = None
-        lastbefore = 0
+        chainbefore = 0
         skip = []
         for k, v in sorted(self.items(), key=ordering):
             k = k.rstrip()
@@ -307,7 +317,8 @@ class Collation(UserDict):
                 res += v.prefix
             if k in skip:
                 continue
-            if not self.cmpKeys(v.base, lastk, v.level) and v.base != eqchain or v.before != lastbefore:
+            if not self._follows(v, lastk) and v.base != eqchain or v.before or v.level < chainbefore:
+                chainbefore = v.before
                 loc = len(res) + 1
                 res += "\n&" + (f"[before {v.before}]" if v.before else "") + escape(v.base)
                 eqchain = None
-- 
2.43.0


From 2eacd86bc4111f3bddad733f75f3e9061189cebf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:22:51 +0000
Subject: [PATCH 062/111] fix: let what follows an element with an expansion
 follow the element, not the expansion

---
 lib/sldr/collation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index cf21d19..dc2214e 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -674,7 +674,7 @@ class CollElement(object):
             self.inherit = True
         if self.exp:
             expkey = ducetSortKey(ducetDict, self.exp, extra=collations)
-            if expkey > basekey:
+            if self.inherit and expkey > basekey:
                 self.shortkey = expkey.copy() + SortKey([[1], [0], [0]])
             else:
                 self.shortkey = basekey.copy()
-- 
2.43.0


From ae75b98f01e1d82df6a0a1230d7c66a0bb87b4c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:00 +0000
Subject: [PATCH 063/111] fix: strip zeros from the keys of single characters
 as well unless all are zero

---
 lib/sldr/collation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index dc2214e..704a090 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -103,7 +103,7 @@ def ducetSortKey(d, k, extra=None, fn=None):
         k = k[i:]
         i = len(k)
     if singlechar:
-        return SortKey([[v for v in r] for r in res])  # don't strip 0s if the only item in the string features a zero
+        return SortKey([[v for v in r if v != 0] or r for r in res])  # don't strip 0s if there is nothing else
     return SortKey([[v for v in r if v != 0] for r in res])  # strip 0s
 
 def stripzero(l):
-- 
2.43.0


From 9889afe47ea38674fc61a9056223b944040a6254 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:25:02 +0000
Subject: [PATCH 064/111] fix: keep the rules that are needed when minimising a
 tailoring

---
 lib/sldr/collation.py | 16 ++++++++++++++++
 1 file changed, 16 insertions(+)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 704a090..717a67d 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -458,6 +458,22 @@ class Collation(UserDict):
                 keeps.update(x.all_children(a, x.level, self))
             else:
                 keeps.add(a)
+        # check what is left sorts the same, otherwise keep more of it
+        wanted = sorted(((v.key, k) for k, v in self.items() if not v.exp), key=lambda x:x[0])
+        while not keeps.issuperset(self.keys()):
+            test = self.__class__(self.ducet)
+            test.update((k, copy.copy(v)) for k, v in self.items() if k in keeps)
+            test._setSortKeys(force=True)
+            needed = set()
+            for a, b in zip(wanted, wanted[1:]):
+                if diffLevel(a[0], b[0]) != diffLevel(test.sortKey(a[1]), test.sortKey(b[1])):
+                    for k in (a[1], b[1]):
+                        while k in self:
+                            needed.add(k)
+                            k = self[k].base
+            if not needed:
+                break
+            keeps.update(needed if not needed.issubset(keeps) else self.keys())
         for k in list(self.keys()):
             if k not in keeps:
                 del self[k]
-- 
2.43.0


From 95f2277af25c727c10d272c69ad1ce0dfce49c65 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:31 +0000
Subject: [PATCH 065/111] fix: write what is based on an element after = as
 based on it

---
 lib/sldr/collation.py | 11 +++--------
 1 file changed, 3 insertions(+), 8 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 717a67d..dffdb52 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -295,11 +295,11 @@ class Collation(UserDict):
         '''Whether what sorts directly after k at the level of v sorts directly after the base of v'''
         while k != v.base:
             e = self.get(k, None)
-            if e is None or e.level <= v.level or e.before:
+            if e is None or e.level < v.level or e.level == v.level < 4 or e.before:
                 return False
             k = e.base
         e = self.get(k, None)
-        return e is not None and (not e.exp or e.inherit or e.order[0] == v.order[0])
+        return e is None or (not e.exp or e.inherit or e.order[0] == v.order[0])
 
     def asICU(self, wrap=0, withkeys=False, ordering=lambda x:x[1].shortkey): 
         # needs fix to factor in characters coming before 'a' syntax, see llu.xml in sldr for an example of what that's supposed to look like. this needs to apply to all strengths of sorting
@@ -308,7 +308,6 @@ class Collation(UserDict):
         lastk = None
         res = ""
         loc = 0
-        eqchain = None
         chainbefore = 0
         skip = []
         for k, v in sorted(self.items(), key=ordering):
@@ -317,11 +316,10 @@ class Collation(UserDict):
                 res += v.prefix
             if k in skip:
                 continue
-            if not self._follows(v, lastk) and v.base != eqchain or v.before or v.level < chainbefore:
+            if lastk is None or not self._follows(v, lastk) or v.before or v.level < chainbefore:
                 chainbefore = v.before
                 loc = len(res) + 1
                 res += "\n&" + (f"[before {v.before}]" if v.before else "") + escape(v.base)
-                eqchain = None
             if wrap and len(res) - loc > wrap:
                 res += "\n"
                 loc = len(res)
@@ -329,11 +327,8 @@ class Collation(UserDict):
                 res += " "
             if v.level == 4:
                 res += "= "
-                if eqchain is None:
-                    eqchain = v.base
             else:
                 res += ("<<<"[:v.level]) + " "
-                eqchain = None
             res += escape(k)
             if v.exp:
                 res += "/" + escape(v.exp)
-- 
2.43.0


From 7c73e0c3ba60281227ce028eb05105b64a010817 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:27:31 +0000
Subject: [PATCH 066/111] fix: minimise tailorings in which elements are equal

---
 lib/sldr/collation.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index dffdb52..40e17b3 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -624,7 +624,7 @@ class CollElement(object):
         self.order = (0,)           # order in defn [reset index, element index within reset]
         self.inDucet = None         # cache of whether we correspond to our position in the ducet
         self._head = None           # the top of our chain, that itself is not in the collation
-        self.children = [[], [], []]    # children at each level
+        self.children = [[], [], [], []]    # children at each level
 
     def __repr__(self):
         res = ">>>>"[:self.level] + self.base
@@ -648,8 +648,8 @@ class CollElement(object):
 
     def all_children(self, k, level, coll):
         res = []
-        for i in range(2 if level == 1 else level, 4):
-            res.extend(sum([coll[x].all_children(x, level, coll) for x in getattr(self, 'children', [] * 3)[i-1]], []))
+        for i in range(2 if level == 1 else level, 5):
+            res.extend(sum([coll[x].all_children(x, level, coll) for x in self.children[i-1]], []))
         res.append(k)
         return res
 
-- 
2.43.0


From a5f41e80f661bfc4749f0698fdd7aae68a1e284d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:37:31 +0000
Subject: [PATCH 067/111] fix: reset where a chain before something ends when
 writing a tailoring

---
 lib/sldr/collation.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 40e17b3..222dbde 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -316,7 +316,8 @@ class Collation(UserDict):
                 res += v.prefix
             if k in skip:
                 continue
-            if lastk is None or not self._follows(v, lastk) or v.before or v.level < chainbefore:
+            if lastk is None or not self._follows(v, lastk) or v.before \
+                    or chainbefore and (v.level < chainbefore or v.order[0] != self[lastk].order[0]):
                 chainbefore = v.before
                 loc = len(res) + 1
                 res += "\n&" + (f"[before {v.before}]" if v.before else "") + escape(v.base)
-- 
2.43.0


From 12df2d2bc369d16b8b9cc341d2c4d2b73a2ad1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:16 +0000
Subject: [PATCH 068/111] fix: find exemplars of several characters that follow
 each other

---
 lib/sldr/ldml_exemplars.py | 19 ++++++++++---------
 1 file changed, 10 insertions(+), 9 deletions(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index 0bcf94b..0dd6f0c 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -708,11 +708,10 @@ class Exemplars(object):
                    multigraph in self._auxiliary or
                    multigraph in self._index or
                    multigraph in self._punctuation):
-                    exemplar = Exemplar(multigraph)
-                    self.clusters[exemplar] += 1
-                    i += multigraph_length
                     break
-            
+            else:
+                multigraph = ''
+
             if maxmultigraphs:
                 #swap max multigraph length to 4 to start
                 for multigraph_length in range(4, 0, -1):
@@ -720,12 +719,14 @@ class Exemplars(object):
                     exemplar = Exemplar(multigraph)
                     self.all_potential_multigraphs[exemplar] += 1
 
-            # No multigraphs were found at this position,
-            # so continue processing a single character
-            # if we have not gone beyond the end of the text.
-            if not i < len(text):
-                break
+            if multigraph:
+                exemplar = Exemplar(multigraph)
+                self.clusters[exemplar] += 1
+                i += len(multigraph)
+                continue
 
+            # No multigraphs were found at this position,
+            # so continue processing a single character.
             char = text[i]
 
             # Test for punctuation.
-- 
2.43.0


From 90612d70fa68f9610c4086660c3d32aef5933beb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:35 +0000
Subject: [PATCH 069/111] fix: count potential multigraphs at the end of a text
 once

---
 lib/sldr/ldml_exemplars.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index 0dd6f0c..ae8a46a 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -715,8 +715,10 @@ class Exemplars(object):
             if maxmultigraphs:
                 #swap max multigraph length to 4 to start
                 for multigraph_length in range(4, 0, -1):
-                    multigraph = text[i:i + multigraph_length]
-                    exemplar = Exemplar(multigraph)
+                    potential_multigraph = text[i:i + multigraph_length]
+                    if len(potential_multigraph) < multigraph_length:
+                        continue
+                    exemplar = Exemplar(potential_multigraph)
                     self.all_potential_multigraphs[exemplar] += 1
 
             if multigraph:
-- 
2.43.0


From 6376bee26ef3ae67279d1a82aed36c725f059106 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:49:35 +0000
Subject: [PATCH 070/111] fix: keep the marks that follow an exemplar that was
 already specified

---
 lib/sldr/ldml_exemplars.py | 28 +++++++++++-----------------
 1 file changed, 11 insertions(+), 17 deletions(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index ae8a46a..1b2982e 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -721,32 +721,26 @@ class Exemplars(object):
                     exemplar = Exemplar(potential_multigraph)
                     self.all_potential_multigraphs[exemplar] += 1
 
-            if multigraph:
-                exemplar = Exemplar(multigraph)
-                self.clusters[exemplar] += 1
-                i += len(multigraph)
-                continue
-
-            # No multigraphs were found at this position,
-            # so continue processing a single character.
-            char = text[i]
+            # If no multigraphs were found at this position,
+            # continue processing a single character.
+            char = multigraph or text[i]
 
             # Test for punctuation.
-            if self.ucd.ispunct(char):
+            if self.ucd.ispunct(char[0]):
                 exemplar = Exemplar(char)
                 self.clusters[exemplar] += 1
-                i += 1
+                i += len(char)
                 continue
             
             pre_casing = str(char)
 
             # Find grapheme clusters.
-            if Char.isUUppercase(char):
+            if Char.isUUppercase(char[0]):
                 char = char.lower()
                 #for cases where the translation uses all uppercase. Does make one of the things in self.allowable() in the next section redundant though
 
             # Ensure exemplar base has needed properties.
-            if not self.allowable(char):
+            if not multigraph and not self.allowable(char):
                 i += 1
                 continue
 
@@ -755,7 +749,7 @@ class Exemplars(object):
 
             # Then find the end of the cluster
             # (which may consist of only base characters).
-            length = base_length = 1
+            length = base_length = len(pre_casing)
             while i + length < len(text):
                 trailer = text[i + length]
                 if self.ucd.is_zwj(trailer):
@@ -776,7 +770,7 @@ class Exemplars(object):
                         # A Mark such as a nukta was found, so the base continues,
                         # as well as the cluster.
                         base_length += 1
-                        base = text[i:i + base_length]
+                        base = char + text[i + len(pre_casing):i + base_length]
                     continue
                 else:
                     # No more marks, so the end of the cluster has been reached.
@@ -795,9 +789,9 @@ class Exemplars(object):
             i += length
 
                         
-            if Char.isUUppercase(pre_casing) and base+trailers not in self.uppercase_chars: 
+            if Char.isUUppercase(pre_casing[0]) and base+trailers not in self.uppercase_chars: 
                 self.uppercase_chars.append(base+trailers)
-            elif Char.isULowercase(pre_casing) and base+trailers not in self.lowercase_chars:
+            elif Char.isULowercase(pre_casing[0]) and base+trailers not in self.lowercase_chars:
                 self.lowercase_chars.append(base+trailers)
 
 
-- 
2.43.0


From 642296160e2573278647b98a52b282c3fa66a69d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:07 +0000
Subject: [PATCH 071/111] fix: count each part of a split exemplar once

---
 lib/sldr/ldml_exemplars.py | 39 +++++++++++++++++++++++---------------
 1 file changed, 24 insertions(+), 15 deletions(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index 1b2982e..369d74a 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -487,24 +487,25 @@ class Exemplars(object):
                 self._digits.add(exemplar.base)
                 del self.clusters[exemplar]
 
-    def split_exemplar(self, exemplar, index, count):
-        """Split an exemplar into separate exemplars."""
+    def split_exemplar(self, exemplar, indexes, count):
+        """Split the trailers at the indexes from an exemplar, as separate exemplars."""
 
         # If the exemplar is already a separate mark,
         # the base of the exemplar will be an empty string,
         # and therefore no further processing is needed
         # on that exemplar.
-        if exemplar.base == '':
+        if exemplar.base == '' or len(indexes) == 0:
             return
 
-        mark = exemplar.trailers[index]
-        before_current_mark = exemplar.trailers[:index]
-        after_current_mark = exemplar.trailers[index+1:]
-
-        exemplar_mark = Exemplar('', mark)
-        self.clusters[exemplar_mark] += count
+        remaining_trailers = ''
+        for index, trailer in enumerate(exemplar.trailers):
+            if index in indexes:
+                exemplar_mark = Exemplar('', trailer)
+                self.clusters[exemplar_mark] += count
+            else:
+                remaining_trailers += trailer
 
-        new_exemplar = Exemplar(exemplar.base, before_current_mark + after_current_mark)
+        new_exemplar = Exemplar(exemplar.base, remaining_trailers)
         self.clusters[new_exemplar] += count
 
         del self.clusters[exemplar]
@@ -514,16 +515,19 @@ class Exemplars(object):
         """Indic matras and viramas are always separate marks."""
         for exemplar in list(self.clusters.keys()):
             count = self.clusters[exemplar]
+            separate = set()
             for trailer_index in range(len(exemplar.trailers)):
                 trailer = exemplar.trailers[trailer_index]
                 if (self.ucd.is_never_combine(trailer) or
                    Char.hasBinaryProperty(trailer, UProperty.DEFAULT_IGNORABLE_CODE_POINT)):
-                    self.split_exemplar(exemplar, trailer_index, count)
+                    separate.add(trailer_index)
+            self.split_exemplar(exemplar, separate, count)
 
     def find_marks_on_same_bases(self):
         """If a set of diacritics has the sames bases, the diacritics are separate."""
         for exemplar in list(self.clusters.keys()):
             count = self.clusters[exemplar]
+            separate = set()
             for trailer_index in range(len(exemplar.trailers)):
                 trailer = exemplar.trailers[trailer_index]
                 if trailer in self.bases_for_marks:
@@ -538,12 +542,14 @@ class Exemplars(object):
                             other_bases = self.bases_for_marks[other_mark]
                             difference = current_bases.symmetric_difference(other_bases)
                             if len(difference) == 0:
-                                self.split_exemplar(exemplar, trailer_index, count)
+                                separate.add(trailer_index)
+            self.split_exemplar(exemplar, separate, count)
 
     def find_productive_marks(self):
         """Split clusters if a mark occurs on many bases."""
         for exemplar in list(self.clusters.keys()):
             count = self.clusters[exemplar]
+            separate = set()
             for trailer_index in range(len(exemplar.trailers)):
                 trailer = exemplar.trailers[trailer_index]
                 if trailer in self.bases_for_marks:
@@ -555,19 +561,21 @@ class Exemplars(object):
                     # If a mark has more than many_bases ...
                     if len(bases_for_mark) > self.many_bases:
                         # then the base and mark are separate exemplars.
-                        self.split_exemplar(exemplar, trailer_index, count)
+                        separate.add(trailer_index)
+            self.split_exemplar(exemplar, separate, count)
 
     def find_second_marks(self):
         """Split clusters if a mark is a second or later stacking diacritic."""
         for exemplar in list(self.clusters.keys()):
             count = self.clusters[exemplar]
+            separate = set()
             for trailer_index in range(len(exemplar.trailers)):
                 trailer = exemplar.trailers[trailer_index]
 
                 # If the mark has already been found to be a always separate mark,
                 # split the exemplar.
                 if trailer in self.always_separate_marks:
-                    self.split_exemplar(exemplar, trailer_index, count)
+                    separate.add(trailer_index)
 
                 # Only graphemes with more than one mark need to be looked at
                 # for finding stacking diacritics that are separate.
@@ -582,9 +590,10 @@ class Exemplars(object):
                     # split the exemplar.
                     if current_mark_ccc == previous_mark_ccc:
                         self.always_separate_marks.add(trailer)
-                        self.split_exemplar(exemplar, trailer_index, count)
+                        separate.add(trailer_index)
 
                 previous_trailer = trailer
+            self.split_exemplar(exemplar, separate, count)
 
     def parcel_marks(self):
         """Move Marks to auxiliary if needed."""
-- 
2.43.0


From 1d1a462b061ea9c3e77f9234cd3a1d1605d0e44e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:07 +0000
Subject: [PATCH 072/111] fix: move every default ignorable exemplar to
 auxiliary

---
 lib/sldr/ldml_exemplars.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index 369d74a..701be0b 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -607,7 +607,7 @@ class Exemplars(object):
         """Move Default_Ignorable_Code_Point characters to auxiliary."""
         for exemplar in list(self.clusters.keys()):
             if exemplar.base == '':
-                return
+                continue
             if Char.hasBinaryProperty(exemplar.base, UProperty.DEFAULT_IGNORABLE_CODE_POINT):
                 # The base is a Default_Ignorable_Code_Point
                 # which needs to go in the auxiliary list.
-- 
2.43.0


From d7b40980ca11d9f9dac41ae17ac0bcd47393114e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:50:07 +0000
Subject: [PATCH 073/111] fix: the main script of a text is a specific one if
 there is any

---
 lib/sldr/ldml_exemplars.py | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index 701be0b..93bcd96 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -351,12 +351,13 @@ class Exemplars(object):
 
     def _get_script(self):
         """Return most frequently occurring script."""
-        script_code_and_count_list = self.scripts.most_common(1)
-        if len(script_code_and_count_list) == 0:
+        script_code_list = [script_code for script_code, count in self.scripts.most_common()]
+        if len(script_code_list) == 0:
             return ''
         else:
-            script_code_and_count = script_code_and_count_list[0]
-            script_code = script_code_and_count[0]
+            # Common and Inherited only count if there is nothing else.
+            script_code_list.sort(key=lambda c: c in (UScriptCode.COMMON, UScriptCode.INHERITED))
+            script_code = script_code_list[0]
             script = self.codes_for_scripts[script_code]
             script_name = Script.getShortName(script)
             return script_name
@@ -410,7 +411,7 @@ class Exemplars(object):
             char = exemplar[0] # only look at the first character in an exemplar.
             script = Script.getScript(char)
             script_name = Script.getShortName(script)
-            if script_name == self._get_script() or not self.ucd.is_specific_script(char):
+            if self._get_script() in ('', script_name) or not self.ucd.is_specific_script(char):
                 list_nfc_exemplars_main_script.append(exemplar)
 
         if self.unittest:
-- 
2.43.0


From cc0eb6cd7259c548f2016f1a4db70ba7d26a3034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:53:09 +0000
Subject: [PATCH 074/111] fix: put an exemplar in main or auxiliary, not both

---
 lib/sldr/ldml_exemplars.py | 21 +++++++++++++--------
 1 file changed, 13 insertions(+), 8 deletions(-)

diff --git a/lib/sldr/ldml_exemplars.py b/lib/sldr/ldml_exemplars.py
index 93bcd96..725f8cf 100644
--- a/lib/sldr/ldml_exemplars.py
+++ b/lib/sldr/ldml_exemplars.py
@@ -617,22 +617,27 @@ class Exemplars(object):
 
     def parcel_frequency(self):
         """Parcel exemplars between main and auxiliary based on frequency."""
-        total_count = sum(self.clusters.values())
-        item_count = len(self.clusters)
+        # The same text may come from different clusters,
+        # such as a mark with and without a base.
+        texts = Counter()
+        for exemplar, count in self.clusters.items():
+            texts[exemplar.text] += count
+
+        total_count = sum(texts.values())
+        item_count = len(texts)
         if item_count != 0:
             average = total_count / float(item_count)
         else:
             average = 0
         frequent = average * (self.frequent / float(100))
 
-        for exemplar in self.clusters.keys():
-            occurs = self.clusters[exemplar]
-            if exemplar.text == "\u0640":
-                self._auxiliary.add(exemplar.text)
+        for text, occurs in texts.items():
+            if text == "\u0640":
+                self._auxiliary.add(text)
             elif occurs > frequent:
-                self._main.add(exemplar.text)
+                self._main.add(text)
             else:
-                self._auxiliary.add(exemplar.text)
+                self._auxiliary.add(text)
 
     def normalize(self, form):
         for a in ("main", "auxiliary", "index", "punctuation", "digits"):
-- 
2.43.0


From 0954b1c090694d9d6cfa425edd93f6395f48153c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:14:38 +0000
Subject: [PATCH 075/111] fix: find the element of an attribute when filling in
 a spreadsheet

---
 lib/sldr/sheet.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index 0a6c100..9e25eff 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -177,7 +177,7 @@ class Sheet(object):
             c.addElement(P(text=value))
 
     def _action_ods(self, path, value, attronly, atname):
-        e = self.ldml.find(path)
+        e = self.ldml.find(path[:path.rindex("[")] if attronly else path)
         if e != None:
             if attronly:
                 v = e.attrib[atname] if atname in e.attrib else ""
-- 
2.43.0


From 0ebe6db22063fa5696d903e5d2030bb58a581a4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:20 +0000
Subject: [PATCH 076/111] fix: accept rows of a spreadsheet that end before
 their value

---
 lib/sldr/sheet.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index 9e25eff..d3ec669 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -277,6 +277,7 @@ class Sheet(object):
                 elname = result.group('elname')
                 atname = result.group('atname')
                 atvalue = result.group('atvalue')
-                self.action(typecheck, datarow[2], atname != None and atvalue == None, atname)
+                value = datarow[2] if len(datarow) > 2 else ""
+                self.action(typecheck, value, atname != None and atvalue == None, atname)
                 datarow = self.nextrow(self.input)
 
-- 
2.43.0


From 63b7f94d5c26450af9423dd9559b0dc941195b4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:20 +0000
Subject: [PATCH 077/111] fix: fill in a row of a spreadsheet from an element
 of just its type

---
 lib/sldr/sheet.py | 18 +++++++++++++-----
 1 file changed, 13 insertions(+), 5 deletions(-)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index d3ec669..e65c706 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -176,8 +176,16 @@ class Sheet(object):
         else:
             c.addElement(P(text=value))
 
+    def _findldmlitem(self, path):
+        """Finds the element at path, not one that differs by an attribute that the path does not give"""
+        laststep = re.search(r"(?:\[[^\]]*\]|[^/\[])+$", path).group(0)
+        for e in self.ldml.findall(path):
+            if all("[@" + a in laststep for a in ("type", "count", "alt", "numberSystem") if a in e.attrib):
+                return e
+        return None
+
     def _action_ods(self, path, value, attronly, atname):
-        e = self.ldml.find(path[:path.rindex("[")] if attronly else path)
+        e = self.ldml.find(path[:path.rindex("[")]) if attronly else self._findldmlitem(path)
         if e != None:
             if attronly:
                 v = e.attrib[atname] if atname in e.attrib else ""
@@ -187,7 +195,7 @@ class Sheet(object):
                 self._writeodsitem(4, v)
 
     def _action1d_ods(self, datarow, p1, p2):
-        v = self.ldml.find(p1 + datarow[0] + p2)
+        v = self._findldmlitem(p1 + datarow[0] + p2)
         if v is not None:
             value = v.text
             if value != "":
@@ -195,7 +203,7 @@ class Sheet(object):
 
     def _action2d_ods(self, datarow, p1, p2, p3, colhead):
         for colnum, col in enumerate(colhead, 4):
-            v = self.ldml.find(p1 + col + p2 + datarow[0] + p3)
+            v = self._findldmlitem(p1 + col + p2 + datarow[0] + p3)
             if v is not None:
                 value = v.text
                 if value != "":
@@ -203,7 +211,7 @@ class Sheet(object):
 
     def _action2dr_ods(self, datarow, p1, p2, p3, colhead):
         for colnum, col in enumerate(colhead, 4):
-            v = self.ldml.find(p1 + datarow[0] + p2 + col + p3)
+            v = self._findldmlitem(p1 + datarow[0] + p2 + col + p3)
             if v is not None:
                 value = v.text
                 if value != "":
@@ -213,7 +221,7 @@ class Sheet(object):
         rowitem = datarow[1]
         if rowitem  == "": return
         for colnum in range(len(p1)):
-            v = self.ldml.find(p1[colnum] + rowitem + p2[colnum])
+            v = self._findldmlitem(p1[colnum] + rowitem + p2[colnum])
             if v is not None:
                 value = v.text
                 if value != "":
-- 
2.43.0


From 6e1ca20b242e14e7e7adc7610641b92b92377f13 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:58 +0000
Subject: [PATCH 078/111] fix: keep all of the text of a cell of a spreadsheet

---
 lib/sldr/sheet.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index e65c706..3187fcb 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -2,6 +2,7 @@ from sldr.ldml import Ldml
 from odf.opendocument import load
 from odf.table import Table, TableCell, TableColumn, TableRow ### only TableCell is used currently
 from odf.text import P
+from odf.teletype import addTextToElement, extractText
 import csv
 import re
 import sys
@@ -83,11 +84,7 @@ class Sheet(object):
                     if c.hasChildNodes():
                         for e in c.childNodes:
                             if e.tagName != 'text:p': continue
-                            if e.hasChildNodes():
-                                for t in e.childNodes:
-                                    if t.tagName != 'Text': continue
-                                    n = t.data
-                                    break
+                            n = extractText(e)
                             break ### check position
                     for repcount in range(count):
                         nodes.append(n)
@@ -143,6 +140,7 @@ class Sheet(object):
     def _writeodsitem(self, col, value):
         """Uses col and value to make entry in ods file (using self.currentrow)"""
         # column numbering starts at 1 for spreadsheet column A
+        if value is None: return
         curcol = 0 ### restarts at beginning of row for each entry
         targetcol = col
         r = self.currentrow
@@ -170,11 +168,12 @@ class Sheet(object):
                 x = r.appendChild(c2)
             else:
                 x = r.insertBefore(c2, c.nextSibling)
-        if c.hasChildNodes():
-            ### perhaps should test that child is text:p and its child is Text
-            c.firstChild.firstChild.data = value
-        else:
-            c.addElement(P(text=value))
+        for e in list(c.childNodes):
+            if e.tagName == 'text:p':
+                c.removeChild(e)
+        p = P()
+        addTextToElement(p, value)
+        c.addElement(p)
 
     def _findldmlitem(self, path):
         """Finds the element at path, not one that differs by an attribute that the path does not give"""
-- 
2.43.0


From bd7868f890dc25bff30d06f2f54ae15f9a6a6b71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:15:58 +0000
Subject: [PATCH 079/111] fix: add the cells that a row of a spreadsheet lacks

---
 lib/sldr/sheet.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index 3187fcb..a224919 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -151,7 +151,10 @@ class Sheet(object):
             if curcol + repcount >= targetcol: break
             curcol += repcount
         else:
-            pass ### got to end of row without finding desired column; add more cells? or report bad col?
+            # got to end of row without finding desired column
+            c = TableCell()
+            r.addElement(c)
+            repcount = targetcol - curcol
         ### doesn't preserve background color (see Time Zones for example)
         countbefore = targetcol - curcol - 1
         countafter = curcol + repcount - targetcol
-- 
2.43.0


From 81ae6cf06594bc02e3cc9ce4fa32068432ed2a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:25:22 +0000
Subject: [PATCH 080/111] fix: read repeated cells of a spreadsheet however
 many they are

---
 lib/sldr/sheet.py | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/lib/sldr/sheet.py b/lib/sldr/sheet.py
index a224919..2371b66 100644
--- a/lib/sldr/sheet.py
+++ b/lib/sldr/sheet.py
@@ -74,18 +74,18 @@ class Sheet(object):
                 nodes = []
                 for c in r.childNodes:
                     if c.tagName != 'table:table-cell': continue
-                    count = 1
-                    repeatedcols = c.getAttribute('numbercolumnsrepeated')
-                    if repeatedcols:
-                        repcount = int(repeatedcols)
-                        if repcount < 10: # avoid 1000+ counts of empty cells at end of row
-                            count = repcount
                     n = ""
                     if c.hasChildNodes():
                         for e in c.childNodes:
                             if e.tagName != 'text:p': continue
                             n = extractText(e)
                             break ### check position
+                    count = 1
+                    repeatedcols = c.getAttribute('numbercolumnsrepeated')
+                    if repeatedcols:
+                        repcount = int(repeatedcols)
+                        if repcount < 10 or n != "" or c is not r.lastChild: # avoid 1000+ counts of empty cells at end of row
+                            count = repcount
                     for repcount in range(count):
                         nodes.append(n)
                 self.currentrow = r
-- 
2.43.0


From 49c3c02012777f28ab386aa687280918dfdf3525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:36:27 +0000
Subject: [PATCH 081/111] fix: hide in an entry of the tag table what its line
 leaves out

---
 lib/sldr/langtags_full.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index bfe0595..2168e62 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -336,10 +336,13 @@ class LangTags(with_metaclass(Singleton, dict)):
                         self[t] = ltag
                         for t in tags:
                             lt = LangTag(tag=t)
-                            if ltag.lang == lt.lang:
+                            if (ltag.lang, ltag.variants, ltag.extensions) == (lt.lang, lt.variants, lt.extensions):
                                 if lt.script is None and lt.region is None:
-                                    lt.hideboth = True
-                                ltag.merge_equivalent(lt)
+                                    ltag.hideboth = True
+                                elif lt.script is None and lt.region == ltag.region:
+                                    ltag.hidescript = True
+                                elif lt.region is None and lt.script == ltag.script:
+                                    ltag.hideregion = True
                             self[t] = ltag
                 return True
             except IOError:
-- 
2.43.0


From 057037b5f48707d6ee152ea02f1fbacf2fa3af49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:22 +0000
Subject: [PATCH 082/111] fix: complete a tag only from what the tag table has

---
 lib/sldr/langtags_full.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index 2168e62..a4a3b78 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -285,7 +285,8 @@ class LangTag(object) :
                 elif self.variants is not None or self.extensions is not None :
                     test = self.__class__(lang = self.lang, region = self.region)
                     test = test.analyse(alltags)
-                    self.merge_equivalent(test)
+                    if str(test) in alltags :
+                        self.merge_equivalent(test)
                 return self
         if self.script is not None :
             test = self.__class__(lang = self.lang, region = self.region, variants = self.variants, extensions = self.extensions)
@@ -295,7 +296,8 @@ class LangTag(object) :
             elif self.variants is not None or self.extensions is not None :
                 test = self.__class__(lang = self.lang, script = self.script)
                 test = test.analyse(alltags)
-                self.merge_equivalent(test)
+                if str(test) in alltags :
+                    self.merge_equivalent(test)
 
         # now the oddeties
         if self.variants is not None :
-- 
2.43.0


From e78b082eae1a227f541bd9e8816f32428473837d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:39:22 +0000
Subject: [PATCH 083/111] fix: complete a language with variants as the
 language alone

---
 lib/sldr/langtags_full.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index a4a3b78..e2a8920 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -298,6 +298,9 @@ class LangTag(object) :
                 test = test.analyse(alltags)
                 if str(test) in alltags :
                     self.merge_equivalent(test)
+        elif self.region is None and (self.variants is not None or self.extensions is not None) :
+            if self.lang in alltags :
+                self.merge_equivalent(alltags[self.lang])
 
         # now the oddeties
         if self.variants is not None :
-- 
2.43.0


From 6c4fdd893f380317022be1295f92b5734660ff81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:03 +0000
Subject: [PATCH 084/111] fix: find the entry of a tag in the unknown region

---
 lib/sldr/langtags_full.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index e2a8920..417665d 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -277,6 +277,7 @@ class LangTag(object) :
             if self.region == "ZZ":
                 self.region = None
                 self.hideregion = False
+                return self.analyse(alltags)
             else:
                 test = self.__class__(lang = self.lang, script = self.script, variants = self.variants, extensions = self.extensions)
                 test = test.analyse(alltags)
-- 
2.43.0


From c197859d39a1d0ca9681061f11c297843ef6e9d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:40:03 +0000
Subject: [PATCH 085/111] fix: complete a tag with variants by its language
 where an entry with them contradicts it

---
 lib/sldr/langtags_full.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/lib/sldr/langtags_full.py b/lib/sldr/langtags_full.py
index 417665d..d3144d0 100755
--- a/lib/sldr/langtags_full.py
+++ b/lib/sldr/langtags_full.py
@@ -281,8 +281,8 @@ class LangTag(object) :
             else:
                 test = self.__class__(lang = self.lang, script = self.script, variants = self.variants, extensions = self.extensions)
                 test = test.analyse(alltags)
-                if str(test) in alltags :
-                    self.merge_equivalent(test)
+                if str(test) in alltags and self.merge_equivalent(test) :
+                    pass
                 elif self.variants is not None or self.extensions is not None :
                     test = self.__class__(lang = self.lang, region = self.region)
                     test = test.analyse(alltags)
@@ -292,8 +292,8 @@ class LangTag(object) :
         if self.script is not None :
             test = self.__class__(lang = self.lang, region = self.region, variants = self.variants, extensions = self.extensions)
             test = test.analyse(alltags)
-            if str(test) in alltags :
-                self.merge_equivalent(test)
+            if str(test) in alltags and self.merge_equivalent(test) :
+                pass
             elif self.variants is not None or self.extensions is not None :
                 test = self.__class__(lang = self.lang, script = self.script)
                 test = test.analyse(alltags)
-- 
2.43.0


From e271a29c62409443d70390af0d26f1d3fee73bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:16 +0000
Subject: [PATCH 086/111] fix: resolve aliases in the flattened locale, not in
 the one the data came from

---
 lib/sldr/ldml_merge.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 5455dde..b346028 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -98,6 +98,7 @@ class LdmlMerge(Ldml):
             break  # only do one alignment
         if addme and (o.tag != "alias" or not len(this)):  # alias in effect turns it into blocking
             this.append(o)
+            o.parent = this
 
     def _overlay_external_resources(self, other, this, usedrafts):
         """Handle sil:font fallback mechanism"""
-- 
2.43.0


From 27bd7a98d962cc5ab563f9cccfa0496ea8731c26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:16 +0000
Subject: [PATCH 087/111] fix: report a loop of aliases instead of failing

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 3cd09e7..aa5cecb 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -969,7 +969,7 @@ class Ldml(ETWriter):
                 children = this.findall(v)
                 if children is None or not len(children): continue
                 if children[0] in _cache:
-                    print("Alias loop discovered {} in {}".format(children[0], self.name))
+                    print("Alias loop discovered {} in {}".format(children[0].tag, getattr(self, 'fname', '')))
                     return True
                 _cache.add(children[0])
                 self.resolve_aliases(children[0], _cache)
-- 
2.43.0


From 69f999a4781da170d91fc58e159d8c808be8b96f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:16 +0000
Subject: [PATCH 088/111] fix: write the output of icupretty to standard output

---
 scripts/icupretty | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/scripts/icupretty b/scripts/icupretty
index 1a35dc2..87323f8 100755
--- a/scripts/icupretty
+++ b/scripts/icupretty
@@ -56,6 +56,7 @@ output = coll.asICU(wrap=80, withkeys=args.keys, ordering=lambda x:x[1].order)
 if args.output:
     outf = codecs.open(args.output, "w", encoding="utf-8")
 else:
-    outf = codecs.getwriter('UTF-8')(sys.stdout)
+    outf = codecs.getwriter('UTF-8')(sys.stdout.buffer)
 outf.write(output)
-outf.close()
+if args.output:
+    outf.close()
-- 
2.43.0


From 1afdf1daf6124573a777558ba68937de74c559cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:16 +0000
Subject: [PATCH 089/111] fix: write the output of ldmlmerge to standard output

---
 scripts/ldmlmerge | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/scripts/ldmlmerge b/scripts/ldmlmerge
index 5bb397a..af4e583 100755
--- a/scripts/ldmlmerge
+++ b/scripts/ldmlmerge
@@ -93,7 +93,6 @@ if this.merge(other, base, default=args.default, copycomments=args.copycomments)
     currdate = datetime.now()
     #currdate.microsecond = 0
     #idnode.set("date","$Date: " + currdate.isoformat() + " $")
-sys.stdout = codecs.getwriter("UTF-8")(sys.stdout)
 this.normalise()
 
 if args.git :
@@ -104,7 +103,7 @@ if args.git :
     this = flattenlocale(this, rev='r', dirs=args.dirs, fname=args.this)
 
 if not args.output :
-    outfh = sys.stdout
+    outfh = codecs.getwriter("UTF-8")(sys.stdout.buffer)
 else :
     outfh = codecs.open(args.output, "w", encoding="utf-8")
 
-- 
2.43.0


From 66eb16199ab24a5837dcc52c9dc3c160b785ff53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:16 +0000
Subject: [PATCH 090/111] fix: change nothing in merging with no other document

---
 lib/sldr/ldml_merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index b346028..8a30e92 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -286,7 +286,8 @@ class LdmlMerge(Ldml):
             Returns True if any changes were made."""
         res = False
         if this == None: this = self.root
-        if other is not None and hasattr(other, 'root'): other = other.root
+        if other is None: return False      # then nothing has changed there
+        if hasattr(other, 'root'): other = other.root
         if base is not None and hasattr(base, 'root'): base = base.root
         before = list(this)
         self._align(this, other, base)
-- 
2.43.0


From bc491c39a57439dfa242d44b03bca195aeb6e9aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:16 +0000
Subject: [PATCH 091/111] fix: pass over other files beside the directories of
 LDML files

---
 scripts/ldmlnormalize | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/ldmlnormalize b/scripts/ldmlnormalize
index 6dbd0fb..c2b282e 100755
--- a/scripts/ldmlnormalize
+++ b/scripts/ldmlnormalize
@@ -21,7 +21,7 @@ else:
         if di.endswith(".xml") or di.endswith(".ldml"):
             allins.append(di)
             allouts.append(do)
-        else:
+        elif os.path.isdir(di):
             for f in os.listdir(di):
                 fi = os.path.join(di, f)
                 fo = os.path.join(do, f)
-- 
2.43.0


From 2defa30c924a49364a7af15f7f1651453cfa5966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:16 +0000
Subject: [PATCH 092/111] fix: import collations from the locale of exactly
 that name

---
 lib/sldr/ldml_merge.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 8a30e92..9ff93b1 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -470,7 +470,8 @@ def flattenlocale(lname, dirs=[], rev='f', changed=set(),
         collmap = {'phonebk' : 'phonebook'}
         def getcollator(lang, coll):
             try:
-                if l.fname.endswith(lang+'.xml'):
+                lang = lang.replace('-', '_')
+                if lang == lname:
                     c = l
                 else:
                     c = getldml(('root' if lang == 'und' else lang), dirs)
-- 
2.43.0


From 2056bc79f87531843418fe27a4b0f0ef4de33a74 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:06:16 +0000
Subject: [PATCH 093/111] fix: minutes and seconds south and west are negative
 too

---
 scripts/zonetab | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/zonetab b/scripts/zonetab
index 48538b5..d7e17d7 100755
--- a/scripts/zonetab
+++ b/scripts/zonetab
@@ -5,11 +5,11 @@
 import argparse, re
 
 def latlongdeg(sign, deg, mins, secs):
-    res = float(sign+deg)
+    res = float(deg)
     res += float(mins) / 60.
     if secs is not None:
         res += float(secs) / 3600.
-    return res
+    return -res if sign == '-' else res
 
 fixzones = {
     "America/Atikokan": "America/Coral_Harbour",
-- 
2.43.0


From b05489d9e64e6b55f16479c18b785d1c570078b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:56 +0000
Subject: [PATCH 094/111] fix: keep all of several addresses, and all
 reorderings, in loading

---
 lib/sldr/ldml.py | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index aa5cecb..65d7897 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -307,7 +307,7 @@ class Ldml(ETWriter):
                 cls.variables[name] = v.text.split()
             elif v.text:
                 cls.variables[name] = v.text.strip()
-        cls.serialElements = set(base.find('serialElements').text.split() + ['special'])
+        cls.serialElements = set(base.find('serialElements').text.split() + ['special', '{'+cls.silns+'}reorder'])
         cls.keys = set()
         for e in base.findall('distinguishing/distinguishingItems'):
             if 'elements' in e.attrib:
@@ -827,8 +827,9 @@ class Ldml(ETWriter):
             self._calc_hashes(base, usedrafts=usedrafts)
         if usedrafts:        # pack up all alternates
             temp = {}
+            lists = self._lists(base)
             for c in base:
-                if c.tag in self.serialElements:
+                if c.tag in self.serialElements or c.attrHash in lists:
                     continue
                 for a, n in [(c.get('alt', None), c)] + list(getattr(c, 'alternates', {}).items()):
                     if c.attrHash not in temp or a not in temp[c.attrHash] \
@@ -849,7 +850,7 @@ class Ldml(ETWriter):
                 v[resk].alternates = newalts
             children = []
             for c in base:
-                if c.tag not in self.serialElements:
+                if c.tag not in self.serialElements and c.attrHash not in lists:
                     head = list(temp[c.attrHash].values())[0]
                     if head is not c and any(head is x for x in list(base) + children):
                         continue
@@ -857,6 +858,11 @@ class Ldml(ETWriter):
                 children.append(c)
             base[:] = children
 
+    def _lists(self, base):
+        ''' Key hashes of the addresses of which there are several, not one and alternates to it '''
+        keys = [(c.attrHash, c.get('alt', None)) for c in base if c.tag == '{' + self.silns + '}url']
+        return set(k[0] for k in keys if keys.count(k) > 1)
+
     def _analyse(self):
         """ Pull out key information from the ldml for its processing."""
         identity = self.root.find('./identity/special/{' + self.silns + '}identity')
-- 
2.43.0


From d87c0b4e20b45948f3dd5b04f318ac3a1d7825cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:01:56 +0000
Subject: [PATCH 095/111] fix: several addresses are trimmed and inherited
 together, not one by one

---
 lib/sldr/ldml_merge.py | 15 ++++++++++++++-
 1 file changed, 14 insertions(+), 1 deletion(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 9ff93b1..5be2f75 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -59,8 +59,14 @@ class LdmlMerge(Ldml):
             return (other.contentHash == this.contentHash) and not self._hasalternates(this)
         silfonttag = '{'+self.silns+'}font'
         samefonts = set(o.contentHash for o in other if o.tag == silfonttag) == set(t.contentHash for t in this if t.tag == silfonttag)
+        lists = self._lists(this) | self._lists(other)
+        for k in lists:         # all the same or all of them stay
+            ts = [t for t in this if t.attrHash == k]
+            if sorted(hash(t.contentHash) for t in ts) == sorted(hash(o.contentHash) for o in other if o.attrHash == k):
+                for t in ts:
+                    this.remove(t)
         for o in other:
-            if o.tag == 'identity' or (o.tag == silfonttag and not samefonts):
+            if o.tag == 'identity' or (o.tag == silfonttag and not samefonts) or o.attrHash in lists:
                 continue
             for t in filter(lambda x: x.attrHash == o.attrHash, this):
                 if (o.contentHash == t.contentHash and not self._hasalternates(t)) or self.difference(o, this=t):
@@ -78,7 +84,14 @@ class LdmlMerge(Ldml):
         """Add missing information in self from other. Honours @draft attributes"""
         if this == None: this = self.root
         other = getattr(other, 'root', other)
+        lists = self._lists(other)
+        own = set(t.attrHash for t in this)
         for o in other:
+            if o.attrHash in lists:     # all or nothing
+                if o.attrHash not in own:
+                    this.append(o)
+                    o.parent = this
+                continue
             # simple if for now, if more use a dict
             if o.tag == 'identity':
                 continue
-- 
2.43.0


From 602a2922a5c8a943a18a5d9d4b884e61c592b412 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:07:55 +0000
Subject: [PATCH 096/111] fix: several addresses are merged as a list

---
 lib/sldr/ldml_merge.py | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 5be2f75..e82b1dd 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -149,11 +149,28 @@ class LdmlMerge(Ldml):
         else:
             b.alternates = o.alternates
             
+    def _merge_lists(self, this, other, base):
+        """Internal method to merge() that merges addresses of which there are several.
+           Returns the key hashes of those it merged."""
+        trees = [x for x in (this, other, base) if x is not None]
+        res = set().union(*(self._lists(x) for x in trees))
+        for k in res:
+            mine, theirs, old = ([] if x is None else [c for c in x if c.attrHash == k] for x in (this, other, base))
+            hashes = lambda l: set(x.contentHash for x in l)
+            for t in mine:
+                if t.contentHash in hashes(old) - hashes(theirs):
+                    this.remove(t)
+            for o in theirs:
+                if o.contentHash not in hashes(old) | hashes(mine):
+                    this.append(self._copynode(o, this))
+        return res
+
     def _align(self, this, other, base):
         """Internal method to merge() that aligns elements in base and other to this and
            records the results in this. O(7N)"""
-        olist = dict([(x.contentHash, x) for x in other]) if other is not None else {}
-        blist = dict([(x.contentHash, x) for x in base]) if base is not None else {}
+        done = self._merge_lists(this, other, base)
+        olist = dict([(x.contentHash, x) for x in other if x.attrHash not in done]) if other is not None else {}
+        blist = dict([(x.contentHash, x) for x in base if x.attrHash not in done]) if base is not None else {}
         for t in list(this):
             t.mergeOther = olist.get(t.contentHash, None)
             t.mergeBase = blist.get(t.contentHash, None)
-- 
2.43.0


From a8a9952b125df577a231a8684b08566ce8b22e0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:30:19 +0000
Subject: [PATCH 097/111] fix: only a letter of its own can be what others are
 inserted before

---
 lib/sldr/collation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/collation.py b/lib/sldr/collation.py
index 222dbde..903f697 100755
--- a/lib/sldr/collation.py
+++ b/lib/sldr/collation.py
@@ -596,7 +596,7 @@ class Collation(UserDict):
         outlist = sorted(self.keys(), key=lambda k:self[k].key)
         inlist = sorted(set((k for k in self.keys() if k in self.ducet)), key=lambda k:ducetSortKey(self.ducet, k))
         for m in SequenceMatcher(a=inlist, b=outlist).get_opcodes():
-            if m[0] in ("replace", "insert") and m[4] < len(outlist):
+            if m[0] in ("replace", "insert") and m[4] < len(outlist) and self[outlist[m[4]]].level == 1:
                 newbase = outlist[m[4]]
                 bcoll = self[outlist[m[3]]]
                 if bcoll.base in self:
-- 
2.43.0


From 66e72f4efa16bdaa5a5c4715863960ae14c0207d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:45 +0000
Subject: [PATCH 098/111] fix: cldrimport takes references from all it puts
 together

---
 scripts/cldrimport | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/cldrimport b/scripts/cldrimport
index f8a6eae..3018090 100755
--- a/scripts/cldrimport
+++ b/scripts/cldrimport
@@ -96,7 +96,7 @@ def doit(a) :
             curr.add_silidentity(draft = 'unconfirmed', source = 'cldrseed', **extras)
         else :
             curr.add_silidentity(source = 'cldr', **extras)
-        for b in list(l.root.iter()):
+        for b in list(curr.root.iter()):
             b.attrib.pop("references", None)        # remove all reference attributes
         if args.hg :
             dohg(curr, allfiles)
-- 
2.43.0


From bbd35f6e4bcb788b3bfcd0f68b02d3e5a57be4ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:45 +0000
Subject: [PATCH 099/111] fix: the report of sldraddkeymans has columns for all
 that is in it

---
 scripts/sldraddkeymans | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/scripts/sldraddkeymans b/scripts/sldraddkeymans
index 65c998a..97bf214 100755
--- a/scripts/sldraddkeymans
+++ b/scripts/sldraddkeymans
@@ -40,8 +40,8 @@ for a in alldat["keyboard"]:
                 entry[s+'source'] = k[s]['source'][0]
 if args.output:
     with open(args.output, "w") as outf:
-        fieldnames = ['langtag', 'fontfamily', 'fontsource',
-                    'oskfamily', 'osksource']
+        fieldnames = ['langtag', 'id', 'fontfamily', 'fontsource',
+                    'oskfontfamily', 'oskfontsource']
         writer = csv.DictWriter(outf, fieldnames = fieldnames)
         writer.writeheader()
         for k, v in sorted(results.items()):
-- 
2.43.0


From 7447c7faab9420959ec0adfb482c7fbfe1b4f7f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:45 +0000
Subject: [PATCH 100/111] fix: fontmatch of a tag that is not in the table

---
 scripts/fontmatch | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/scripts/fontmatch b/scripts/fontmatch
index 3c91c0d..5c9de21 100755
--- a/scripts/fontmatch
+++ b/scripts/fontmatch
@@ -27,11 +27,10 @@ args = parser.parse_args()
 with open(args.rules, encoding="utf-8") as inf:
     rules = json.load(inf)
 
-ltagset = lookup(args.langtag)
-if ltagset is None:
+try:
+    ltag = lookup(args.langtag).full
+except KeyError:
     ltag = langtag(args.langtag)
-else:
-    ltag = ltagset.full
 
 print(f"Searching for {ltag}")
 if args.timeit:
-- 
2.43.0


From 916355d8f4abea5b69b3728ebd962681ed73dce0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:45 +0000
Subject: [PATCH 101/111] fix: subelement and addnode add elements of the kind
 their parents are

---
 lib/sldr/ldml.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 65d7897..91f0140 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -209,7 +209,9 @@ class ETWriter(object):
         """ Appends a new node to a parent, returning the new node.
             Empty (None) attributes are stripped"""
         kw = {k: v for k, v in kw.items() if v is not None}
-        return et.SubElement(parent, tag, **kw)
+        e = parent.makeelement(tag, kw)     # of the same kind as its parent
+        parent.append(e)
+        return e
 
     def _reverselocalns(self, tag):
         ''' Convert ns:tag -> {url}tag'''
@@ -226,7 +228,9 @@ class ETWriter(object):
         """ Create a new SubElement and do localns replacement as in ns:tag -> {url}tag"""
         tag = self._reverselocalns(tag)
         kw = {self._reverselocalns(k): v for k, v in kw.items() if v is not None}
-        return et.SubElement(parent, tag, kw)
+        e = parent.makeelement(tag, kw)
+        parent.append(e)
+        return e
 
 
 def etwrite(et, write, topns = True, namespaces = None):
-- 
2.43.0


From d4e762202eb4dd9e1292f36739b9415728d61921 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:52:45 +0000
Subject: [PATCH 102/111] fix: fixsldr adds elements of the kind its documents
 have

---
 scripts/fixsldr | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/scripts/fixsldr b/scripts/fixsldr
index fa77b08..5b4003b 100755
--- a/scripts/fixsldr
+++ b/scripts/fixsldr
@@ -106,11 +106,11 @@ def add_silidentity(ldml) :
     ldml.add_namespace('sil', silns[1:-1])
     identity = ldml.root.find('identity')
     if identity is None :
-        identity = SubElement(ldml.root, 'identity')
+        identity = ldml.subelement(ldml.root, 'identity')
     silident = identity.find('special/'+silns+'identity')
     if silident is None :
-        temp = SubElement(identity, 'special')
-        silident = SubElement(temp, silns+'identity')
+        temp = ldml.subelement(identity, 'special')
+        silident = ldml.subelement(temp, silns+'identity')
     return silident
 
 def doit(l) :
@@ -138,7 +138,7 @@ def doit(l) :
         if len(orient) > 0 :
             layout = curr.root.find('layout')
             if layout is None :
-                layout = SubElement(curr.root, 'layout')
+                layout = curr.subelement(curr.root, 'layout')
             layout.append(orient)
     status = curr.root.find('status')
     if status is not None :
-- 
2.43.0


From ea85e72c42aaa83f27e664d4753f4edf2bd43ee2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:46 +0000
Subject: [PATCH 103/111] fix: merging merges alternates by their names, and
 loses no text to them

---
 lib/sldr/ldml_merge.py | 71 +++++++++++++++++++-----------------------
 1 file changed, 32 insertions(+), 39 deletions(-)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index e82b1dd..e106061 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -199,6 +199,7 @@ class LdmlMerge(Ldml):
                     if t.mergeBase is not None: del blist[t.mergeBase.contentHash]
         for e in olist.values():       # pick up stuff in other but not in this
             newe = self._copynode(e, this)
+            if hasattr(e, 'alternates'): newe.alternates = dict(e.alternates)
             if base is not None and e.contentHash in blist:
                 newe.mergeBase = blist.pop(e.contentHash)
             elif base is not None:
@@ -271,41 +272,32 @@ class LdmlMerge(Ldml):
         return res
 
     def _merge_alts(self, base, other, target, default='unconfirmed'):
-        if other is None or not hasattr(other, 'alternates'): return False
-        res = False
-        if not hasattr(target, 'alternates'):
-            target.alternates = dict(other.alternates)
-            return (len(target.alternates) != 0)
-        balt = getattr(base, 'alternates', {}) if base is not None else {}
-        allkeys = set(sum((list(getattr(x, 'alternates', {}).keys()) for x in (base, target, other)), []))
-        for k in allkeys:
-            if k not in balt:
-                if k not in other.alternates: continue
-                if k not in target.alternates or self.get_draft(target.alternates[k], default) > self.get_draft(other.alternates, default):
-                    target.alternates[k] = other.alternates[k]
-                    res = True
-            elif k not in other.alternates:
-                if k not in target.alternates or self.get_draft(target.alternates[k], default) > self.get_draft(balt[k]):
-                    target.alternates[k] = balt[k]
-                    res = True
-            elif k not in target.alternates:
-                if k not in other.alternates or self.get_draft(other.alternates[k], default) > self.get_draft(balt[k]):
-                    target.alternates[k] = balt[k]
-                else:
-                    target.alternates[k] = other.alternates[k]
-                res = True
-            elif self.get_draft(target.alternates[k], default) > self.get_draft(other.alternates[k], default):
-                target.alternates[k] = other.alternates[k]
-                res = True
-            elif self.get_draft(target.alternates[k], default) > self.get_draft(balt[k]):
-                target.alternates[k] = balt[k]
-                res = True
-            elif other.alternates[k].contentHash != balt[k].contentHash:
-                target.alternates[k] = other.alternates[k]
-                res = True
-        return res
+        """3-way merge of the alternates by their names. A better draft wins, a change wins over a removal.
+           Returns True if target got other alternates."""
+        if other is None: return False
+        talts, oalts, balts = (getattr(x, 'alternates', {}) for x in (target, other, base))
+        res = {}
+        for k in sorted(set(talts) | set(oalts)):
+            t, o, b = (x.get(k, None) for x in (talts, oalts, balts))
+            unchanged = lambda x: b is not None and x.contentHash == b.contentHash
+            if t is None or o is None:
+                v = o if t is None else t
+                if unchanged(v): continue       # removed on the other side
+            elif self.get_draft(t, default) > self.get_draft(o, default):
+                v = o
+            elif b is not None and self.get_draft(t, default) > self.get_draft(b):
+                v = b
+            elif b is not None and not unchanged(o) and \
+                        (unchanged(t) or self.get_draft(t, default) == self.get_draft(o, default)):
+                v = o
+            else:
+                v = t
+            res[k] = v
+        if list(res.keys()) == sorted(talts) and all(v is talts[k] for k, v in res.items()):
+            return False
+        target.alternates = res
+        return True
 
-    
     def _add_alt(self, target, origin, default='unconfirmed'):
         self._add_alt_leaf(target, self._copynode(origin),
                 default=default, leaf=origin.contentHash is not None,
@@ -332,11 +324,12 @@ class LdmlMerge(Ldml):
                 continue
             if t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:     # other differs
                 if t.mergeBase.contentHash == t.contentHash:   # base doesn't
-                    if not self.useDrafts or \
-                            not self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments):
-                        this.remove(t)                                  # swap us out
-                        this.append(t.mergeOther)
-                        res = True
+                    if self.useDrafts:
+                        self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
+                        t.mergeOther.alternates = getattr(t, 'alternates', {})
+                    this.remove(t)                                  # swap us out
+                    this.append(t.mergeOther)
+                    res = True
                 elif t.mergeBase.contentHash != t.mergeOther.contentHash:
                     res |= self.merge(t.mergeOther, t.mergeBase, t, default=default)        # could be a clash so recurse
                 elif self.useDrafts:       # base == other
-- 
2.43.0


From 4aa39c93e4cbf058f1449bd4a2fe4dec77957c1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:46 +0000
Subject: [PATCH 104/111] fix: merging takes changes of drafts

---
 lib/sldr/ldml_merge.py | 29 +++++++++++++++++++++++++++++
 1 file changed, 29 insertions(+)

diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index e106061..573cc38 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -303,14 +303,40 @@ class LdmlMerge(Ldml):
                 default=default, leaf=origin.contentHash is not None,
                 alt = self.alt())
 
+    def _merge_drafts(self, this, other, base):
+        """Internal method to merge() that merges changes of nothing but @draft, which no hash tells of"""
+        res = False
+        theirs, old = ({x.attrHash: x for x in y} for y in (other, base))
+        for t in this:
+            o, b = (x.get(t.attrHash, None) for x in (theirs, old))
+            if o is None or b is None or t.tag == 'identity':
+                continue
+            res |= self._merge_drafts(t, o, b)
+            alts = [getattr(x, 'alternates', {}) for x in (t, o, b)]
+            for t, o, b in [(t, o, b)] + [tuple(x.get(k, None) for x in alts) for k in alts[0]]:
+                if o is None or b is None or len(t) or not (t.contentHash == o.contentHash == b.contentHash):
+                    continue
+                if t.get('draft') == b.get('draft') != o.get('draft'):
+                    (source, dest) = (o, t)
+                    res = True
+                else:
+                    (source, dest) = (t, o)     # may yet be put in place of this
+                dest.attrib.pop('draft', None)
+                if 'draft' in source.attrib:
+                    dest.set('draft', source.get('draft'))
+        return res
+
     def merge(self, other, base, this=None, default=None, copycomments=None):
         """ Does 3 way merging of self/this and other against a common base. O(N), base or other can be None.
             Returns True if any changes were made."""
         res = False
+        top = this == None
         if this == None: this = self.root
         if other is None: return False      # then nothing has changed there
         if hasattr(other, 'root'): other = other.root
         if base is not None and hasattr(base, 'root'): base = base.root
+        if top and base is not None and self.useDrafts:
+            res |= self._merge_drafts(this, other, base)
         before = list(this)
         self._align(this, other, base)
         # other and base can be None
@@ -321,6 +347,9 @@ class LdmlMerge(Ldml):
                         res |= self.merge(t.mergeOther, None, t, default=default, copycomments=copycomments)
                     elif self.useDrafts:
                         res |= self._merge_with_alts(t.mergeBase, t.mergeOther, t, default=default, copycomments=copycomments)
+                elif t.mergeOther is not None and self.useDrafts:
+                    b = [x for x in base if x.attrHash == t.attrHash] if base is not None else []
+                    res |= self._merge_alts(b[0] if len(b) else None, t.mergeOther, t, default=default)
                 continue
             if t.mergeOther is not None and t.mergeOther.contentHash != t.contentHash:     # other differs
                 if t.mergeBase.contentHash == t.contentHash:   # base doesn't
-- 
2.43.0


From f8e76421481d8ef0b85919e7e853591cb243ec8b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:46 +0000
Subject: [PATCH 105/111] fix: what an alias points to comes with its
 alternates

---
 lib/sldr/ldml.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 91f0140..f9ffa1e 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -984,8 +984,9 @@ class Ldml(ETWriter):
                 _cache.add(children[0])
                 self.resolve_aliases(children[0], _cache)
                 _cache.remove(children[0])
-                for res in children[0]:
-                    res = self._copynode(res, parent=this)
+                for child in children[0]:
+                    res = self._copynode(child, parent=this)
+                    if hasattr(child, 'alternates'): res.alternates = dict(child.alternates)
                     this.insert(i+count, res)
                     count += 1
                 hasalias = True
-- 
2.43.0


From a09f068ea6eb76c3912a120f9989f322ca3aef34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:20 +0000
Subject: [PATCH 106/111] fix: sldrcoverage sees what is in an element without
 white space

---
 scripts/sldrcoverage | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/sldrcoverage b/scripts/sldrcoverage
index ba3ba5a..0bd91cd 100755
--- a/scripts/sldrcoverage
+++ b/scripts/sldrcoverage
@@ -23,7 +23,7 @@ def getxpaths(l, e=None):
     res = []
     for c in e:
         res.extend(getxpaths(l, c))
-    if e.text != "":
+    if e.text != "" and not len(e):     # an element that holds others may have no text at all
         return [l.as_xpath(e, usedrafts=True)]
     else:
         return res
-- 
2.43.0


From 42530e74a22e7ec0831748b6adc61614a5e17a51 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:20 +0000
Subject: [PATCH 107/111] fix: sldrcoverage works for territories of one
 calendar

---
 scripts/sldrcoverage | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/sldrcoverage b/scripts/sldrcoverage
index 0bd91cd..6f8f98a 100755
--- a/scripts/sldrcoverage
+++ b/scripts/sldrcoverage
@@ -32,7 +32,7 @@ def asregex(l):
     if len(l) == 0:
         return ''
     elif len(l) == 1:
-        return l
+        return l[0]
     else:
         return "("+"|".join(l)+")"
 
-- 
2.43.0


From 222a0e0bb412c8459424a679d6716591ed9d16c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:52:20 +0000
Subject: [PATCH 108/111] fix: sldrcoverage --level, and levels that English
 has nothing of

---
 scripts/sldrcoverage | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/sldrcoverage b/scripts/sldrcoverage
index 6f8f98a..310f13d 100755
--- a/scripts/sldrcoverage
+++ b/scripts/sldrcoverage
@@ -178,9 +178,13 @@ outfile = open(args.outfile, "w") if args.outfile else sys.stdout
 outcsv = csv.writer(outfile)
 outcsv.writerow(['langtag', 'source'] + levelnames)
 
-for r in sorted(results, key=lambda x:(-sum(100. * x[1].get(k, 0)/reseng.get(k) for k in levelnames), x[0])):
+def percent(res, k):
+    # not every level is asked for, or has anything in English
+    return 100. * res.get(k, 0) / reseng[k] if reseng.get(k, 0) else 0.
+
+for r in sorted(results, key=lambda x:(-sum(percent(x[1], k) for k in levelnames), x[0])):
     if len(r[1]):
-        outcsv.writerow([r[0], r[2]] + ["{:.2f}".format(100. * r[1].get(k, 0) / reseng.get(k)) for k in levelnames])
+        outcsv.writerow([r[0], r[2]] + ["{:.2f}".format(percent(r[1], k)) for k in levelnames])
 
 if args.outfile:
     outfile.close()
-- 
2.43.0


From 6af4d47aeb93d115b4a34b1cecfdb2d6f7731421 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:13:23 +0000
Subject: [PATCH 109/111] fix: flattening the imports of a collation works
 where a tailoring is empty

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index f9ffa1e..17a745e 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -1019,7 +1019,7 @@ class Ldml(ETWriter):
         """ Flattens [import] statements in a collation tailoring"""
         def doimport(m):
             return self.flatten_collation(importfn(m.group('lang'), m.group('coll')), importfn)
-        return re.sub(r'\[import\s*(?P<lang>.*?)-u-co-(?P<coll>.*?)\s*\]', doimport, collstr)
+        return re.sub(r'\[import\s*(?P<lang>.*?)-u-co-(?P<coll>.*?)\s*\]', doimport, collstr or '')
 
 
 def _prepare_parent(next, token):
-- 
2.43.0


From b5497879c675182f75a93e557abc84c84ecceaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:34 +0000
Subject: [PATCH 110/111] fix: what a hash is merged with counts as one, so
 that moving an element to another list is a change

---
 lib/sldr/ldml.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index 17a745e..edca9aa 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -270,7 +270,7 @@ class _minhash(object):
 
     def merge(self, aminh):
         if self.minhash is not None and aminh.minhash is not None: self._minhashupdate(aminh.minhash)
-        self.hashed = (self.hashed * 1000003 + aminh.hashed) & self._mask
+        self.hashed = hash((self.hashed, aminh.hashed)) & self._mask    # as one, not as what it is made from
 
     def _minhashupdate(self, ahash):
         x = (1 << self._bits) - 1
-- 
2.43.0


From a6e75fa5fe64a7e1503db2a66e1c295cf84283a4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:36:34 +0000
Subject: [PATCH 111/111] fix: lists in significant order are trimmed and
 inherited as a whole

---
 lib/sldr/ldml.py       | 8 +++++---
 lib/sldr/ldml_merge.py | 7 ++++---
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/lib/sldr/ldml.py b/lib/sldr/ldml.py
index edca9aa..0c2ddc9 100644
--- a/lib/sldr/ldml.py
+++ b/lib/sldr/ldml.py
@@ -862,9 +862,11 @@ class Ldml(ETWriter):
                 children.append(c)
             base[:] = children
 
-    def _lists(self, base):
-        ''' Key hashes of the addresses of which there are several, not one and alternates to it '''
-        keys = [(c.attrHash, c.get('alt', None)) for c in base if c.tag == '{' + self.silns + '}url']
+    def _lists(self, base, ordered=False):
+        ''' Key hashes of the addresses of which there are several, not one and alternates to it.
+            Also of ordered elements, if asked for. '''
+        keys = [(c.attrHash, c.get('alt', None)) for c in base if c.tag == '{' + self.silns + '}url'
+                        or (ordered and c.tag in self.serialElements and c.tag != 'special')]
         return set(k[0] for k in keys if keys.count(k) > 1)
 
     def _analyse(self):
diff --git a/lib/sldr/ldml_merge.py b/lib/sldr/ldml_merge.py
index 573cc38..8e09c73 100644
--- a/lib/sldr/ldml_merge.py
+++ b/lib/sldr/ldml_merge.py
@@ -59,10 +59,11 @@ class LdmlMerge(Ldml):
             return (other.contentHash == this.contentHash) and not self._hasalternates(this)
         silfonttag = '{'+self.silns+'}font'
         samefonts = set(o.contentHash for o in other if o.tag == silfonttag) == set(t.contentHash for t in this if t.tag == silfonttag)
-        lists = self._lists(this) | self._lists(other)
+        lists = self._lists(this, ordered=True) | self._lists(other, ordered=True)
         for k in lists:         # all the same or all of them stay
             ts = [t for t in this if t.attrHash == k]
-            if sorted(hash(t.contentHash) for t in ts) == sorted(hash(o.contentHash) for o in other if o.attrHash == k):
+            order = list if any(t.tag in self.serialElements for t in ts) else sorted
+            if order(hash(t.contentHash) for t in ts) == order(hash(o.contentHash) for o in other if o.attrHash == k):
                 for t in ts:
                     this.remove(t)
         for o in other:
@@ -84,7 +85,7 @@ class LdmlMerge(Ldml):
         """Add missing information in self from other. Honours @draft attributes"""
         if this == None: this = self.root
         other = getattr(other, 'root', other)
-        lists = self._lists(other)
+        lists = self._lists(other, ordered=True)
         own = set(t.attrHash for t in this)
         for o in other:
             if o.attrHash in lists:     # all or nothing
-- 
2.43.0

