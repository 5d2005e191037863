From 90b736ae8268de2a8e86e4c68f4b4836cde136ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:07 +0000
Subject: [PATCH 01/32] fix: exact line match must anchor the whole expression
 (a|b matched substrings)

---
 ciscoconfparse/ciscoconfparse.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 998817f..9a27516 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1496,7 +1496,7 @@ class CiscoConfParse(object):
         else:
             # Return the lines in self.ioscfg, which match (exactly) linespec
             return list(
-                filter(re.compile("^%s$" % linespec).search, self.ioscfg),
+                filter(re.compile("^(?:%s)$" % linespec).search, self.ioscfg),
             )
 
     # This method is on CiscoConfParse()
@@ -1544,7 +1544,7 @@ class CiscoConfParse(object):
         if exactmatch is False:
             parentobjs = self._find_line_OBJ(linespec)
         else:
-            parentobjs = self._find_line_OBJ("^%s$" % linespec)
+            parentobjs = self._find_line_OBJ("^(?:%s)$" % linespec)
 
         allobjs = set()
         for parent in parentobjs:
@@ -1624,7 +1624,7 @@ class CiscoConfParse(object):
         if exactmatch is False:
             parentobjs = self._find_line_OBJ(linespec)
         else:
-            parentobjs = self._find_line_OBJ("^%s$" % linespec)
+            parentobjs = self._find_line_OBJ("^(?:%s)$" % linespec)
 
         allobjs = set()
         for parent in parentobjs:
@@ -1737,7 +1737,7 @@ class CiscoConfParse(object):
         if exactmatch is False:
             objs = self._find_line_OBJ(linespec)
         else:
-            objs = self._find_line_OBJ("^%s$" % linespec)
+            objs = self._find_line_OBJ("^(?:%s)$" % linespec)
 
         for obj in objs:
             tmp.add(obj)
@@ -3937,7 +3937,7 @@ class CiscoConfParse(object):
             linespec_re = re.compile(linespec)
         elif exactmatch:
             # Return objects whose text attribute matches linespec exactly
-            linespec_re = re.compile("^%s$" % linespec)
+            linespec_re = re.compile("^(?:%s)$" % linespec)
 
         return list(
             filter(lambda obj: linespec_re.search(obj.text), self.ConfigObjs),
-- 
2.43.0


From 01d273a2b3ec570974c466ae4ef02f809ae6cf5d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:13 +0000
Subject: [PATCH 02/32] fix: line equality and hash must not conflate line
 number and text

---
 ciscoconfparse/ccp_abc.py | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index bab75bf..eab6835 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -129,7 +129,7 @@ class BaseCfgLine(metaclass=ABCMeta):
     def __hash__(self):
         ##   I inlined the hash() argument below for speed... whenever I change
         ##   self.__eq__() I *must* change this
-        return hash(str(self.linenum) + self.text)
+        return hash((self.linenum, self.text))
 
     # On BaseCfgLine()
     @logger.catch(reraise=True)
@@ -150,9 +150,7 @@ class BaseCfgLine(metaclass=ABCMeta):
             ##   I added hash_arg() inline below for speed... whenever I change
             ##   self.__hash__() I *must* change this
             # FIXME
-            return hash(str(self.linenum) + self.text) == hash(
-                str(val.linenum) + val.text
-            )
+            return self.linenum == val.linenum and self.text == val.text
         except Exception:
             return False
 
-- 
2.43.0


From 7b040c211f14be8c228977365577753c1681696a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:37 +0000
Subject: [PATCH 03/32] fix: child search must accept children whose match is
 empty and expressions with inline flags

---
 ciscoconfparse/ciscoconfparse.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 9a27516..d1b77c6 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -2715,7 +2715,7 @@ class CiscoConfParse(object):
                 # If recurse is False, only search direct children
                 ##############################################################
                 for child in parent.children:
-                    if child.re_match(rf"({childspec})", default=False):
+                    if re.search(childspec, child.text):
                         retval.add(child)
         else:
             for parent in parents:
@@ -2724,7 +2724,7 @@ class CiscoConfParse(object):
                 #    of the children
                 ##############################################################
                 for child in parent.all_children:
-                    if child.re_match(rf"({childspec})", default=False):
+                    if re.search(childspec, child.text):
                         retval.add(child)
 
         return sorted(retval)
-- 
2.43.0


From ae0bff28744070ef3c9dc4896e9024f41eb74b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:34:49 +0000
Subject: [PATCH 04/32] fix: a line object given as childspec must not
 overwrite parentspec

---
 ciscoconfparse/ciscoconfparse.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index d1b77c6..1d60f6f 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1917,7 +1917,7 @@ class CiscoConfParse(object):
             raise InvalidParameters(error)
 
         if isinstance(childspec, BaseCfgLine):
-            parentspec = childspec.text
+            childspec = childspec.text
 
         if ignore_ws:
             parentspec = build_space_tolerant_regex(parentspec)
@@ -2316,7 +2316,7 @@ class CiscoConfParse(object):
             logger.error(error)
             raise InvalidParameters(error)
         if isinstance(childspec, BaseCfgLine):
-            parentspec = childspec.text
+            childspec = childspec.text
 
         if ignore_ws is True:
             parentspec = build_space_tolerant_regex(parentspec)
@@ -2694,7 +2694,7 @@ class CiscoConfParse(object):
             raise InvalidParameters(error)
 
         if isinstance(childspec, BaseCfgLine):
-            parentspec = childspec.text
+            childspec = childspec.text
 
         if ignore_ws:
             parentspec = build_space_tolerant_regex(parentspec)
-- 
2.43.0


From 828e27c4cc3f917b5f7ace02fe974afd2de47dd0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:40 +0000
Subject: [PATCH 05/32] fix: insertion adds one new line object at each
 matching line, or at the given line object only

---
 ciscoconfparse/ccp_abc.py        | 12 ++--
 ciscoconfparse/ciscoconfparse.py | 97 ++++++++++++++------------------
 2 files changed, 47 insertions(+), 62 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index eab6835..cc0d0be 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -804,10 +804,10 @@ class BaseCfgLine(metaclass=ABCMeta):
             calling_filename, calling_lineno, calling_function, insertstr
         )
         if isinstance(insertstr, str) is True:
-            retval = self.confobj.insert_before(exist_val=self.text, new_val=insertstr, atomic=False)
+            retval = self.confobj.insert_before(exist_val=self, new_val=insertstr, atomic=False)
 
         elif isinstance(insertstr, BaseCfgLine) is True:
-            retval = self.confobj.insert_before(exist_val=self.text, new_val=insertstr.text, atomic=False)
+            retval = self.confobj.insert_before(exist_val=self, new_val=insertstr.text, atomic=False)
 
         else:
             raise ValueError(error)
@@ -823,7 +823,7 @@ class BaseCfgLine(metaclass=ABCMeta):
 
         # Fail if insertstr is not the correct object type...
         #   only strings and *CfgLine() are allowed...
-        if not isinstance(insertstr, str) and not isinstance(insertstr, "BaseCfgLine"):
+        if not isinstance(insertstr, str) and not isinstance(insertstr, BaseCfgLine):
             error = "Cannot insert object type - %s" % type(insertstr)
             logger.error(error)
             raise NotImplementedError(error)
@@ -838,11 +838,11 @@ class BaseCfgLine(metaclass=ABCMeta):
 
         if isinstance(insertstr, str) is True:
             # Handle insertion of a plain-text line
-            retval = self.confobj.insert_after(exist_val=self.text, new_val=insertstr, atomic=False)
+            retval = self.confobj.insert_after(exist_val=self, new_val=insertstr, atomic=False)
 
-        elif isinstance(insertstr, "BaseCfgLine"):
+        elif isinstance(insertstr, BaseCfgLine):
             # Handle insertion of a configuration line obj such as IOSCfgLine()
-            retval = self.confobj.insert_after(exist_val=self.text, new_val=insertstr.text, atomic=False)
+            retval = self.confobj.insert_after(exist_val=self, new_val=insertstr.text, atomic=False)
 
         else:
             error = "FATAL CALL: in {} line {} {}(insertstr='{}')".format(
diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 1d60f6f..d4987bb 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -2883,11 +2883,11 @@ class CiscoConfParse(object):
             if new_val_indent >= 0:
                 # Forces an indent on ``new_val``...
                 self.ConfigObjs.insert_before(
-                    exist_val, new_val_indent * " " + new_val.lstrip()
+                    _obj, new_val_indent * " " + new_val.lstrip()
                 )
             else:
                 # Does not force an indent on ``new_val``...
-                self.ConfigObjs.insert_before(exist_val, new_val)
+                self.ConfigObjs.insert_before(_obj, new_val)
 
         if atomic is True:
             self.atomic()
@@ -3001,11 +3001,11 @@ class CiscoConfParse(object):
             if new_val_indent >= 0:
                 # Forces an indent on ``new_val``...
                 self.ConfigObjs.insert_after(
-                    exist_val, new_val_indent * " " + new_val.lstrip()
+                    _obj, new_val_indent * " " + new_val.lstrip()
                 )
             else:
                 # Does not force an indent on ``new_val``...
-                self.ConfigObjs.insert_after(exist_val, new_val)
+                self.ConfigObjs.insert_after(_obj, new_val)
 
         if atomic is True:
             self.atomic()
@@ -5309,7 +5309,7 @@ class ConfigList(MutableSequence):
 
         # Matches "IOSCfgLine", "NXOSCfgLine" and "ASACfgLine"... (and others)
         elif isinstance(exist_val, BaseCfgLine):
-            exist_val = exist_val.text
+            pass
 
         else:
             logger.error(error)
@@ -5326,35 +5326,12 @@ class ConfigList(MutableSequence):
             logger.error(error)
             raise ValueError(error)
 
-        if self.factory is False:
-            new_obj = CFGLINE[self.syntax](
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-            )
-
-        elif self.factory is True:
-            new_obj = config_line_factory(
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-                syntax=self.syntax,
-            )
-
-        else:
-            logger.error(error)
-            raise ValueError(error)
-
         # Find all config lines which need to be modified... store in all_idx
 
-        all_idx = [
-            idx
-            for idx, list_obj in enumerate(self._list)
-            if re.search(exist_val, list_obj.text)
-        ]
+        all_idx = self._insert_positions(exist_val)
         for idx in sorted(all_idx, reverse=True):
             # insert at idx - 0 implements 'insert_before()'...
-            self._list.insert(idx, new_obj)
+            self._list.insert(idx, self._new_line_object(new_val))
 
         if atomic:
             # Reparse the whole config as a text list
@@ -5365,6 +5342,37 @@ class ConfigList(MutableSequence):
             ## Just renumber lines...
             self.reassign_linenums()
 
+    # This method is on ConfigList()
+    def _new_line_object(self, text):
+        """Return a new config line object for `text`, owned by this ConfigList()."""
+        if self.factory is True:
+            obj = config_line_factory(
+                all_lines=self._list,
+                line=text,
+                comment_delimiter=self.comment_delimiter,
+                syntax=self.syntax,
+            )
+        else:
+            obj = CFGLINE[self.syntax](
+                all_lines=self._list,
+                line=text,
+                comment_delimiter=self.comment_delimiter,
+            )
+        obj.confobj = self
+        return obj
+
+    # This method is on ConfigList()
+    def _insert_positions(self, exist_val):
+        """Return the index of each line matching the `exist_val` regex; if `exist_val` is a line object, only return the index of that line."""
+        if isinstance(exist_val, str):
+            return [idx for idx, obj in enumerate(self._list) if re.search(exist_val, obj.text)]
+
+        retval = [idx for idx, obj in enumerate(self._list) if obj is exist_val]
+        if len(retval) == 0:
+            # exist_val is from before the last commit()...
+            retval = [idx for idx, obj in enumerate(self._list) if obj.text == exist_val.text]
+        return retval
+
     # This method is on ConfigList()
     @ junos_unsupported
     @ logger.catch(reraise=True)
@@ -5431,7 +5439,7 @@ class ConfigList(MutableSequence):
 
         # Matches "IOSCfgLine", "NXOSCfgLine" and "ASACfgLine"... (and others)
         elif isinstance(exist_val, BaseCfgLine):
-            exist_val = exist_val.text
+            pass
 
         else:
             logger.error(err_txt)
@@ -5448,34 +5456,11 @@ class ConfigList(MutableSequence):
             logger.error(err_txt)
             raise ValueError(err_txt)
 
-        if self.factory is False:
-            new_obj = CFGLINE[self.syntax](
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-            )
-
-        elif self.factory is True:
-            new_obj = config_line_factory(
-                all_lines=self._list,
-                line=new_val,
-                comment_delimiter=self.comment_delimiter,
-                syntax=self.syntax,
-            )
-
-        else:
-            logger.error(err_txt)
-            raise ValueError(err_txt)
-
         # Find all config lines which need to be modified... store in all_idx
 
-        all_idx = [
-            idx
-            for idx, list_obj in enumerate(self._list)
-            if re.search(exist_val, list_obj._text)
-        ]
+        all_idx = self._insert_positions(exist_val)
         for idx in sorted(all_idx, reverse=True):
-            self._list.insert(idx + 1, new_obj)
+            self._list.insert(idx + 1, self._new_line_object(new_val))
 
         if atomic is True:
             # Reparse the whole config as a text list
-- 
2.43.0


From 7f09302f2ebb3f1f5f1b1b001a34868e86a5a9e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:47 +0000
Subject: [PATCH 06/32] fix: append_line() must append the given text (it
 appended __undefined__)

---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index d4987bb..399a45c 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3096,7 +3096,7 @@ class CiscoConfParse(object):
             logger.error(error)
             raise InvalidParameters(error)
         elif isinstance(linespec, (int, str, float)):
-            self.ConfigObjs.append(IOSCfgLine(str(linespec)))
+            self.ConfigObjs.append(IOSCfgLine(line=str(linespec), comment_delimiter=self.comment_delimiter))
         elif isinstance(linespec, IOSCfgLine):
             self.ConfigObjs.append(linespec)
         else:
-- 
2.43.0


From ff953efa9a6ca7839f255e07e337bf561192aed6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:49:53 +0000
Subject: [PATCH 07/32] fix: ConfigList.insert() must work with factory=True
 and own the new line

---
 ciscoconfparse/ciscoconfparse.py | 18 +-----------------
 1 file changed, 1 insertion(+), 17 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 399a45c..37d7e32 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5479,23 +5479,7 @@ class ConfigList(MutableSequence):
 
         # Coerce a string into the appropriate object
         if getattr(val, "capitalize", False):
-            if self.factory:
-                obj = config_line_factory(
-                    text=val,
-                    comment_delimiter=self.comment_delimiter,
-                    syntax=self.syntax,
-                )
-
-            elif self.factory is False:
-                obj = CFGLINE[self.syntax](
-                    text=val,
-                    comment_delimiter=self.comment_delimiter,
-                )
-
-            else:
-                err_txt = 'insert() cannot insert "{}"'.format(val)
-                logger.error(err_txt)
-                raise ValueError(err_txt)
+            obj = self._new_line_object(val)
         else:
             err_txt = 'insert() cannot insert "{}"'.format(val)
             logger.error(err_txt)
-- 
2.43.0


From 6580a7a396440c57a0afa8fe0804578d05e29aed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:00 +0000
Subject: [PATCH 08/32] fix: delete() must remove the line object and its
 descendants, not whatever is at a stale line number

---
 ciscoconfparse/ccp_abc.py | 59 ++++++++++-----------------------------
 1 file changed, 15 insertions(+), 44 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index cc0d0be..094203c 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -668,53 +668,24 @@ class BaseCfgLine(metaclass=ABCMeta):
         if self.confobj.debug >= 1:
             logger.info("{}.delete(recurse={}) was called.".format(self, recurse))
 
-        # Build a set of all IOSCfgLine() object instances to be deleted...
-        delete_these = set(
-            {
-                self,
-            }
-        )
-
+        # Build a list of all IOSCfgLine() object instances to be deleted...
+        delete_these = [self]
         if recurse is True:
-            if self.confobj.debug >= 1:
-                logger.debug(
-                    "Executing <IOSCfgLine line #{}>.delete(recurse=True)".format(
-                        self.linenum
-                    )
-                )
-
             # NOTE - 1.5.30 changed this from iterating over self.children
             #        to self.all_children
-            for child in self.all_children:
-                delete_these.add(child)
-
-            # reverse is important here so we can delete a range of line numbers
-            # without clobbering the line numbers that haven't been deleted
-            # yet...
-            for obj in sorted(delete_these, reverse=True):
-                linenum = obj.linenum
-                if self.confobj.debug >= 1:
-                    logger.debug(
-                        "    Deleting <IOSCfgLine(line # {})>.".format(linenum)
-                    )
-                del self.confobj._list[linenum]
-
-        else:
-            if self.confobj.debug >= 1:
-                logger.debug(
-                    "Executing <IOSCfgLine line #{}>.delete(recurse=False)".format(
-                        self.linenum
-                    )
-                )
-            ## Consistency check to refuse deletion of the wrong object...
-            ##    only delete if the line numbers are consistent
-            text = self.text
-            linenum = self.linenum
-            assert self.confobj._list[linenum].text == text
-
-            if self.confobj.debug >= 1:
-                logger.debug("    Deleting <IOSCfgLine(line # {})>.".format(linenum))
-            del self.confobj._list[linenum]
+            delete_these.extend(self.all_children)
+
+        config_lines = self.confobj._list
+        if not any(obj is self for obj in config_lines):
+            # this object is from before the last commit()...
+            delete_these = [obj for obj in config_lines if obj in delete_these]
+
+        # Line numbers and texts may be stale or ambiguous; only object identity is safe...
+        delete_ids = {id(obj) for obj in delete_these}
+        self.confobj._list = [obj for obj in config_lines if id(obj) not in delete_ids]
+        for obj in delete_these:
+            if obj.parent is not obj and id(obj.parent) not in delete_ids:
+                obj.parent.children = [ii for ii in obj.parent.children if ii is not obj]
 
         self.confobj.reassign_linenums()
         return True
-- 
2.43.0


From a211871126d24b60c212aa0d562fa13f482a9d73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:06 +0000
Subject: [PATCH 09/32] fix: re_sub() must keep indent and line id in step with
 the new text

---
 ciscoconfparse/ccp_abc.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 094203c..24349a8 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -1058,8 +1058,10 @@ class BaseCfgLine(metaclass=ABCMeta):
             self.delete()
             return
 
-        self._text = retval
-        self.set_comment_bool()
+        # The text setter maintains indent / is_comment...
+        parent = self.parent
+        self.text = retval
+        self.parent = parent
         return retval
 
     # On BaseCfgLine()
-- 
2.43.0


From 07c4a4eb1df28ddb5ccd192c9c1e71e355442763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:13 +0000
Subject: [PATCH 10/32] fix: replace_all_children() must reach all descendants

---
 ciscoconfparse/ciscoconfparse.py | 9 +--------
 1 file changed, 1 insertion(+), 8 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 37d7e32..d942900 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3957,14 +3957,7 @@ class CiscoConfParse(object):
         """SEMI-PRIVATE: Takes a single object and returns a list of
         decendants in all 'children' / 'grandchildren' / etc... after it.
         It should NOT return the children of siblings"""
-        # sort the list, and get unique objects
-        retval = set(lineobject.children)
-        for candidate in lineobject.children:
-            if candidate.has_children:
-                for child in candidate.children:
-                    retval.add(child)
-        retval = sorted(retval)
-        return retval
+        return lineobject.all_children
 
     # This method is on CiscoConfParse()
     @ logger.catch(reraise=True)
-- 
2.43.0


From 0a906dccd0d2a3b78ff427fbbc85fc988702792a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:50:21 +0000
Subject: [PATCH 11/32] fix: insert_after_child(atomic=True) must not reparse
 between insertions

---
 ciscoconfparse/ciscoconfparse.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index d942900..443f08f 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -3048,11 +3048,14 @@ class CiscoConfParse(object):
                         self.ConfigObjs.insert_after(
                             cobj,
                             insertstr,
-                            atomic=atomic,
+                            atomic=False,
                         ),
                     )
                 else:
                     pass
+        if atomic:
+            # reparse once; the line objects above are stale after a reparse
+            self.atomic()
         return retval
 
     # This method is on CiscoConfParse()
-- 
2.43.0


From 785012ad5cc09ad672f3a911319d3972666efa20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:51:55 +0000
Subject: [PATCH 12/32] fix: line numbers must equal positions after blank
 lines are dropped

---
 ciscoconfparse/ciscoconfparse.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 443f08f..76c4981 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5792,6 +5792,8 @@ class ConfigList(MutableSequence):
                 if obj.text.strip() != "" or obj.blank_line_keep is True
             ]
             self._list = retval
+            # line numbers must follow the dropped lines
+            self.reassign_linenums()
 
         return retval
 
-- 
2.43.0


From e68c8a035527647d8c68de24e2a6b13b2f0e1244 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:01 +0000
Subject: [PATCH 13/32] fix: a macro without a terminator must not raise
 IndexError

---
 ciscoconfparse/ciscoconfparse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 76c4981..6089fc1 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5627,6 +5627,9 @@ class ConfigList(MutableSequence):
             finished = False
             while not finished:
                 idx += 1
+                if idx >= len(self._list):
+                    # the macro terminator is missing
+                    break
                 cobj = self._list[idx]
                 # blank_line_keep for Github Issue #229
                 cobj.blank_line_keep = True
-- 
2.43.0


From 8a2d76a95c484e578df3890dcab7f14cebfc9293 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:07 +0000
Subject: [PATCH 14/32] fix: a line moved under a banner, macro or opening
 brace must leave its indentation parent

---
 ciscoconfparse/ciscoconfparse.py | 32 +++++++++++++++++++++++++-------
 1 file changed, 25 insertions(+), 7 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 6089fc1..06d92f8 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -541,13 +541,28 @@ def assign_parent_to_closing_braces(input_list=None, keep_blank_lines=False):
 
                 elif len(obj.text.strip()) >= 1 and obj.text.strip()[0] == "}":
                     if len(opening_brace_objs) >= 1:
-                        obj.parent = opening_brace_objs.pop()
+                        adopt_line(opening_brace_objs.pop(), obj)
                     else:
                         raise ValueError
 
     return input_list
 
 
+def adopt_line(parentobj, childobj):
+    """Make `childobj` a child of `parentobj` (and of no other line), and keep the children in line order."""
+    if childobj.parent is parentobj:
+        return None
+    if childobj.parent is not childobj:
+        oldparent = childobj.parent
+        oldparent.children = [obj for obj in oldparent.children if obj is not childobj]
+    childobj.parent = parentobj
+    children = parentobj.children
+    children.append(childobj)
+    if len(children) > 1 and children[-2].linenum > childobj.linenum:
+        children.sort()
+    return None
+
+
 # This method was copied from the same method in git commit below...
 # https://raw.githubusercontent.com/mpenning/ciscoconfparse/bb3f77436023873da344377d3c839387f5131e7f/ciscoconfparse/ciscoconfparse.py
 @logger.catch(reraise=True)
@@ -5525,6 +5540,9 @@ class ConfigList(MutableSequence):
 
         banner_re_str = r"^(?:(?P<btype>(?:set\s+)*banner\s\w+\s+)(?P<bchar>\S))"
         for parent in banner_objs:
+            if parent.parent is not parent:
+                # this line is inside another banner
+                continue
             # blank_line_keep for Github Issue #229
             parent.blank_line_keep = True
 
@@ -5588,9 +5606,8 @@ class ConfigList(MutableSequence):
                                 ),
                             )
                         # blank_line_keep for Github Issue #229
-                        parent.children.append(obj)
+                        adopt_line(parent, obj)
                         parent.child_indent = 0
-                        obj.parent = parent
                         break
                     else:
                         # all non-banner-parent lines should hit this condition
@@ -5600,9 +5617,8 @@ class ConfigList(MutableSequence):
                     # Commenting the following lines out; fix Github issue #115
                     # elif obj.is_comment and (obj.indent == 0):
                     #    break
-                    parent.children.append(obj)
+                    adopt_line(parent, obj)
                     parent.child_indent = 0
-                    obj.parent = parent
                     obj.blank_line_keep = True
 
                 except IndexError:
@@ -5619,6 +5635,9 @@ class ConfigList(MutableSequence):
         # Mark macro children appropriately...
         for idx in macro_parent_idx_list:
             pobj = self._list[idx]
+            if pobj.parent is not pobj:
+                # this line is inside another banner / macro
+                continue
             # blank_line_keep for Github Issue #229
             pobj.blank_line_keep = True
             pobj.child_indent = 0
@@ -5633,8 +5652,7 @@ class ConfigList(MutableSequence):
                 cobj = self._list[idx]
                 # blank_line_keep for Github Issue #229
                 cobj.blank_line_keep = True
-                cobj.parent = pobj
-                pobj.children.append(cobj)
+                adopt_line(pobj, cobj)
                 # If we hit the end of the macro, break out of the loop
                 if cobj.text.rstrip() == "@":
                     finished = True
-- 
2.43.0


From f3220ff9bc4834333ef3d1a8022510484c1daa25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:33 +0000
Subject: [PATCH 15/32] fix: find_object_branches() with one expression raised
 UnboundLocalError

---
 ciscoconfparse/ciscoconfparse.py | 2 --
 1 file changed, 2 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 06d92f8..0b24578 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1250,8 +1250,6 @@ class CiscoConfParse(object):
                 # Ensure we have the most recent branches...
                 branches = new_branches
 
-        branches = new_branches
-
         # If regex_groups is True, assign regexp matches to the return matrix.
         if regex_groups is True:
             return_matrix = []
-- 
2.43.0


From 4038d0436e647ae74920a54f48c0e421df6e9824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:52:40 +0000
Subject: [PATCH 16/32] fix: find_object_branches() must apply regex_flags to
 every expression

---
 ciscoconfparse/ciscoconfparse.py | 7 ++-----
 1 file changed, 2 insertions(+), 5 deletions(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 0b24578..59b3c61 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -1179,10 +1179,7 @@ class CiscoConfParse(object):
 
             # Get the child objects from parent objects
             if parent_obj is None:
-                children = self._find_line_OBJ(
-                    linespec=childspec,
-                    exactmatch=False,
-                )
+                children = self.ConfigObjs
             else:
                 children = parent_obj.children
 
@@ -1270,7 +1267,7 @@ class CiscoConfParse(object):
                         return_row[idx] = (None,)
 
                     else:
-                        regex_result = re.search(branchspec[idx], element.text)
+                        regex_result = re.search(branchspec[idx], element.text, regex_flags)
                         if regex_result is not None:
                             # Save all the regex capture groups in matched_capture...
                             matched_capture = regex_result.groups()
-- 
2.43.0


From a4225ba2548d6d2e127c581083426f7b6eed28ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:34 +0000
Subject: [PATCH 17/32] fix: IPv6Obj containment must count the last addresses
 of the network

'::3/128' in '::/126' was False: the comparison used the number of usable
hosts (size - 2) instead of the last address of each network.
---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 8fc9724..b181e4b 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2059,7 +2059,7 @@ class IPv6Obj(object):
             else:
                 # NOTE: We cannot use the same algorithm as IPv4Obj.__contains__() b/c IPv6Obj has no broadcast
                 comparison_01 = (self.as_decimal_network <= val.as_decimal_network)
-                comparison_02 = (self.as_decimal_network + self.numhosts - 1) >= (val.as_decimal_network + val.numhosts - 1)
+                comparison_02 = self.as_decimal_network_maxint >= val.as_decimal_network_maxint
                 return comparison_01 and comparison_02
 
         except BaseException as eee:
-- 
2.43.0


From 86c4becf840f3aa111a05afd28dedd1eaa56ea22 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:40 +0000
Subject: [PATCH 18/32] fix: subtraction may yield the highest address

IPv4Obj('255.255.255.255') - 0 (and the IPv6 analogue) raised although the
result is inside the address space.
---
 ciscoconfparse/ccp_util.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index b181e4b..1cf911d 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1321,7 +1321,7 @@ class IPv4Obj(object):
 
         orig_prefixlen = self.prefixlen
         total = self.as_decimal - val
-        if total >= IPV4_MAXINT:
+        if total > IPV4_MAXINT:
             raise RequirementFailure("Max IPv4 integer exceeded")
         if total < 0:
             raise RequirementFailure("Min IPv4 integer exceeded")
@@ -2038,7 +2038,7 @@ class IPv6Obj(object):
 
         orig_prefixlen = self.prefixlen
         total = self.as_decimal - val
-        if total >= IPV6_MAXINT:
+        if total > IPV6_MAXINT:
             raise RequirementFailure("Max IPv6 integer exceeded")
         if total < 0:
             raise RequirementFailure("Min IPv6 integer exceeded")
-- 
2.43.0


From 8da85319dd486dabef99ff1ecb64027eea38f035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:55:47 +0000
Subject: [PATCH 19/32] fix: network_offset of the broadcast address, and
 negative offsets

Reading network_offset of the last address of a subnet (10.0.0.3/30) raised,
and setting a negative offset silently left the subnet.
---
 ciscoconfparse/ccp_util.py | 14 ++++----------
 1 file changed, 4 insertions(+), 10 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 1cf911d..088d8de 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -1554,10 +1554,7 @@ class IPv4Obj(object):
     @property
     def network_offset(self):
         """Returns the integer difference between host number and network number.  This must be less than `numhosts`"""
-        offset = self.as_decimal - self.as_decimal_network
-        if offset > self.numhosts:
-            raise RequirementFailure()
-        return offset
+        return self.as_decimal - self.as_decimal_network
 
     # do NOT wrap with @logger.catch(...)
     # On IPv4Obj()
@@ -1580,7 +1577,7 @@ class IPv4Obj(object):
             arg = int(arg)
             # get the max offset for this subnet...
             max_offset = self.as_decimal_broadcast - self.as_decimal_network
-            if arg <= max_offset:
+            if 0 <= arg <= max_offset:
                 self.ip_object = IPv4Address(self.as_decimal_network + arg)
             else:
                 raise AddressValueError(f"{self}.network_offset({arg=}) exceeds the boundaries of '{self.as_cidr_net}'")
@@ -2234,10 +2231,7 @@ class IPv6Obj(object):
     @property
     def network_offset(self):
         """Returns the integer difference between host number and network number.  This must be less than `numhosts`"""
-        offset = self.as_decimal - self.as_decimal_network
-        if offset > self.numhosts:
-            raise RequirementFailure()
-        return offset
+        return self.as_decimal - self.as_decimal_network
 
     # do NOT wrap with @logger.catch(...)
     # On IPv6Obj()
@@ -2260,7 +2254,7 @@ class IPv6Obj(object):
             arg = int(arg)
             # get the max offset for this subnet...
             max_offset = self.as_decimal_network_maxint - self.as_decimal_network
-            if arg <= max_offset:
+            if 0 <= arg <= max_offset:
                 self.ip_object = IPv6Address(self.as_decimal_network + arg)
             else:
                 raise AddressValueError(f"{self}.network_offset({arg=}) exceeds the boundaries of '{self.as_cidr_net}'")
-- 
2.43.0


From f08fff99ba533671126f170751e88c627ad92b6b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:56:21 +0000
Subject: [PATCH 20/32] fix: 'neq PORT' denotes all other ports; range bounds
 stay in 1..65535

'neq 80' was taken for 'eq 80' because it contains 'eq '; a named port after
neq raised ValueError; 'range 0 70000' was accepted.
---
 ciscoconfparse/ccp_util.py | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 088d8de..ce3f1f0 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -2461,7 +2461,7 @@ class L4Object(object):
         else:
             raise NotImplementedError(f"This syntax is unknown: '{syntax}'")
 
-        if "eq " in port_spec.strip():
+        if re.search(r"^eq\s", port_spec):
             port_tmp = re.split(r"\s+", port_spec)[-1].strip()
             eq_port = int(ports.get(port_tmp, port_tmp))
             if not (1 <= eq_port <= 65535):
@@ -2477,7 +2477,7 @@ class L4Object(object):
             port_tmp = re.split(r"\s+", port_spec)[1:]
             low_port = int(ports.get(port_tmp[0], port_tmp[0]))
             high_port = int(ports.get(port_tmp[1], port_tmp[1]))
-            if low_port > high_port:
+            if not (1 <= low_port <= high_port <= 65535):
                 raise RequirementFailure()
             self.port_list = sorted(range(low_port, high_port + 1))
         elif "lt " in port_spec.strip():
@@ -2493,9 +2493,12 @@ class L4Object(object):
                 raise RequirementFailure()
             self.port_list = sorted(range(low_port + 1, 65536))
         elif "neq " in port_spec.strip():
-            port_str = re.split(r"\s+", port_spec)[-1]
+            port_tmp = re.split(r"\s+", port_spec)[-1]
+            neq_port = int(ports.get(port_tmp, port_tmp))
+            if not (1 <= neq_port <= 65535):
+                raise RequirementFailure()
             tmp = set(range(1, 65536))
-            tmp.remove(int(port_str))
+            tmp.remove(neq_port)
             self.port_list = sorted(tmp)
         else:
             raise NotImplementedError(f"This port_spec is unknown: '{port_spec}'")
-- 
2.43.0


From 48bfe3fbdb83c6c115fa3cb258ca6b13dbe6abcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:57:00 +0000
Subject: [PATCH 21/32] fix: re_match_iter_typed(groupdict=..., recurse=False)
 must try every child

It returned the default as soon as the first child did not match.
---
 ciscoconfparse/ccp_abc.py | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 24349a8..656cf11 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -1360,12 +1360,13 @@ class BaseCfgLine(metaclass=ABCMeta):
             if recurse is False:
                 for cobj in self.children:
                     mm = re.search(regex, cobj.text)
-                    return self.get_typed_dict(
-                        regex=mm,
-                        type_dict=groupdict,
-                        default=default,
-                        debug=debug,
-                    )
+                    if isinstance(mm, re.Match):
+                        return self.get_typed_dict(
+                            regex=mm,
+                            type_dict=groupdict,
+                            default=default,
+                            debug=debug,
+                        )
                 return self.get_typed_dict(
                     regex=mm,
                     type_dict=groupdict,
-- 
2.43.0


From 5335c6b7259a8790d2b478549a332ad9902c0888 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:31 +0000
Subject: [PATCH 22/32] fix: interfaces sort with missing components before
 numbers

Comparing Ethernet1 with Ethernet1/1, or Ethernet1/1 with Ethernet1/1.2,
raised TypeError (None < int).
---
 ciscoconfparse/ccp_util.py | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index ce3f1f0..32a72eb 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -3488,11 +3488,17 @@ class CiscoIOSInterface(object):
         except Exception:
             return False
 
+    # This method is on CiscoIOSInterface()
+    @property
+    def _sort_key(self):
+        """sort_list, with missing components ordered before any number"""
+        return [(ii is not None, ii) for ii in self.sort_list]
+
     # This method is on CiscoIOSInterface()
     @logger.catch(reraise=True)
     def __gt__(self, other):
         # Ref: http://stackoverflow.com/a/7152796/667301
-        if self.sort_list > other.sort_list:
+        if self._sort_key > other._sort_key:
             return True
         return False
 
@@ -3500,7 +3506,7 @@ class CiscoIOSInterface(object):
     @logger.catch(reraise=True)
     def __lt__(self, other):
         # Ref: http://stackoverflow.com/a/7152796/667301
-        if self.sort_list < other.sort_list:
+        if self._sort_key < other._sort_key:
             return True
         return False
 
@@ -4372,11 +4378,17 @@ class CiscoIOSXRInterface(object):
         except Exception:
             return False
 
+    # This method is on CiscoIOSXRInterface()
+    @property
+    def _sort_key(self):
+        """sort_list, with missing components ordered before any number"""
+        return [(ii is not None, ii) for ii in self.sort_list]
+
     # This method is on CiscoIOSXRInterface()
     @logger.catch(reraise=True)
     def __gt__(self, other):
         # Ref: http://stackoverflow.com/a/7152796/667301
-        if self.sort_list > other.sort_list:
+        if self._sort_key > other._sort_key:
             return True
         return False
 
@@ -4384,7 +4396,7 @@ class CiscoIOSXRInterface(object):
     @logger.catch(reraise=True)
     def __lt__(self, other):
         # Ref: http://stackoverflow.com/a/7152796/667301
-        if self.sort_list < other.sort_list:
+        if self._sort_key < other._sort_key:
             return True
         return False
 
@@ -5241,7 +5253,7 @@ class CiscoRange(MutableSequence):
                 if isinstance(target_list, list):
                     if isinstance(target_list[0], (CiscoIOSInterface, CiscoIOSXRInterface)):
                         # Sort CiscoIOSInterface() or CiscoIOSXRInterface members
-                        new_list = sorted(target_list, key=lambda x: getattr(x, attribute), reverse=reverse)
+                        new_list = sorted(target_list, key=lambda x: [(ii is not None, ii) for ii in getattr(x, attribute)] if attribute == "sort_list" else getattr(x, attribute), reverse=reverse)
                     elif isinstance(target_list[0], (int, float)):
                         # Sort int or float members
                         new_list = sorted(target_list, reverse=reverse)
-- 
2.43.0


From 2398d11c0f34ae2e275ec48676e403d09799a36e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:40 +0000
Subject: [PATCH 23/32] fix: an integer range expands in ascending order

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 32a72eb..7e083b4 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -4864,7 +4864,7 @@ class CiscoRange(MutableSequence):
                 continue
 
         # De-duplicate the list of integers and return it...
-        return list(set([int(ii) for ii in integers]))
+        return sorted(set([int(ii) for ii in integers]))
 
     # This method is on CiscoRange()
     @logger.catch(reraise=True)
-- 
2.43.0


From 604deba266ef5f6ef07630d21f1bc4e6c960aeb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:48 +0000
Subject: [PATCH 24/32] fix: CiscoRange.as_list() must not duplicate interface
 members

---
 ciscoconfparse/ccp_util.py | 11 -----------
 1 file changed, 11 deletions(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 7e083b4..88633aa 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5400,17 +5400,6 @@ class CiscoRange(MutableSequence):
     @logger.catch(reraise=True)
     def as_list(self, result_type="auto"):
         """Return a list of sorted components; an empty string is automatically rejected.  This method is tricky to test due to the requirement for the `.sort_list` attribute on all elements; avoid using the ordered nature of `as_list` and use `as_set`."""
-        # WAS DEEPCOPY
-        yy_list = copy.deepcopy(self._list)
-        for ii in self._list:
-            if isinstance(ii, str) and ii == "":
-                # Reject an empty string...
-                continue
-            if getattr(ii, "sort_list", None) is not None:
-                # Require the .sort_list attribute...
-                yy_list.append(ii)
-
-        self._list = yy_list
         try:
             # Disable linter qa checks on this embedded list syntax...
             retval = sorted(set(self._list), reverse=self.reverse) # noqa
-- 
2.43.0


From 90d16bf938337689d660ff40a40904d7db66edbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:59:56 +0000
Subject: [PATCH 25/32] fix: CiscoRange.remove() of an interface raised
 UnboundLocalError

---
 ciscoconfparse/ccp_util.py | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 88633aa..9c1b035 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5344,6 +5344,13 @@ class CiscoRange(MutableSequence):
             else:
                 result_type = self.result_type
 
+        elif len(self._list) > 0 and isinstance(self._list[0], (CiscoIOSInterface, CiscoIOSXRInterface)):
+            result_type = type(self._list[0])
+            new_list = [ii for ii in list_before if ii != arg]
+            if len(new_list) < length_before:
+                self._list = new_list
+                return self
+
         elif len(self._list) > 0:
 
             # Try removing some common result types...
-- 
2.43.0


From eeca57e7d7103f3a99df6033ad67ac2451b4558b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:00:05 +0000
Subject: [PATCH 26/32] fix: CiscoRange.as_set() with the default result_type
 raised TypeError

---
 ciscoconfparse/ccp_util.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_util.py b/ciscoconfparse/ccp_util.py
index 9c1b035..65ea583 100644
--- a/ciscoconfparse/ccp_util.py
+++ b/ciscoconfparse/ccp_util.py
@@ -5445,7 +5445,7 @@ class CiscoRange(MutableSequence):
         retval = set(self._list)
         if result_type == "auto":
             if len(self._list) > 0:
-                result_type = type(self.as_list[0])
+                result_type = self.member_type
                 return set([result_type(ii) for ii in retval])
             else:
                 return list()
-- 
2.43.0


From 22705b92d020ca81fa2fb43c7643ce4f05bbe98b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:28:44 +0000
Subject: [PATCH 27/32] fix: trunk_vlans_allowed applies the allowed-vlan lines
 in order

---
 ciscoconfparse/models_cisco.py | 119 +++++++--------------------------
 1 file changed, 26 insertions(+), 93 deletions(-)

diff --git a/ciscoconfparse/models_cisco.py b/ciscoconfparse/models_cisco.py
index c112094..b69e655 100644
--- a/ciscoconfparse/models_cisco.py
+++ b/ciscoconfparse/models_cisco.py
@@ -2203,23 +2203,14 @@ class BaseIOSIntfLine(IOSCfgLine):
     def trunk_vlans_allowed(self):
         r"""Return a CiscoRange() with the list of allowed vlan numbers (as int).  Return 0 if the port isn't a switchport in trunk mode"""
 
-        # The default value for retval...
-        if self.is_switchport and not self.has_manual_switch_access:
-            retval = CiscoRange(result_type=int)
-        else:
+        if not self.is_switchport or self.has_manual_switch_access:
             return 0
 
-        _all_vlans = "1-4094"
-        _max_number_vlans = 4094
-        # Default to allow allow all vlans...
-        vdict = {
-            "allowed": _all_vlans,
-            "add": None,
-            "except": None,
-            "remove": None,
-        }
-
-        ## Iterate over switchport trunk statements
+        # Default to allow all vlans...
+        retval = CiscoRange(text=f"1-{MAX_VLAN}", result_type=int)
+        double_allowed = False
+
+        ## Apply the switchport trunk statements, in the order of the configuration
         for obj in self.children:
 
             if obj.text.split()[0:5] == ["switchport", "trunk", "allowed", "vlan", "add"]:
@@ -2227,107 +2218,49 @@ class BaseIOSIntfLine(IOSCfgLine):
                     r"^\s+switchport\s+trunk\s+allowed\s+vlan\s+add\s+(\d[\d\-\,\s]*)$",
                     default="_nomatch_",
                     result_type=str,
-                ).lower()
+                ).strip().lower()
                 if add_str != "_nomatch_":
-                    if vdict["add"] is None:
-                        vdict["add"] = add_str
-                    else:
-                        vdict["add"] += f",{add_str}"
+                    retval = retval + CiscoRange(add_str, result_type=int)
 
             elif obj.text.split()[0:5] == ["switchport", "trunk", "allowed", "vlan", "except"]:
                 exc_str = obj.re_match_typed(
                     r"^\s+switchport\s+trunk\s+allowed\s+vlan\s+except\s+(\d[\d\-\,\s]*)$",
                     default="_nomatch_",
                     result_type=str,
-                ).lower()
+                ).strip().lower()
                 if exc_str != "_nomatch_":
-                    if vdict["except"] is None:
-                        vdict["except"] = exc_str
-                    else:
-                        vdict["except"] += f",{exc_str}"
+                    retval = retval - CiscoRange(exc_str, result_type=int)
 
             elif obj.text.split()[0:5] == ["switchport", "trunk", "allowed", "vlan", "remove"]:
                 rem_str = obj.re_match_typed(
                     r"^\s+switchport\s+trunk\s+allowed\s+vlan\s+remove\s+(\d[\d\-\,\s]*)$",
                     default="_nomatch_",
                     result_type=str,
-                ).lower()
+                ).strip().lower()
                 if rem_str != "_nomatch_":
-                    if vdict["remove"] is None:
-                        vdict["remove"] = rem_str
-                    else:
-                        vdict["remove"] += f",{rem_str}"
+                    retval = retval - CiscoRange(rem_str, result_type=int)
 
             elif obj.text.split()[0:4] == ["switchport", "trunk", "allowed", "vlan"]:
-                ## For every child object, check whether the vlan list is modified
+                ## A plain list, 'all' or 'none' replaces what was allowed so far;
+                ## a **double allowed** statement extends the plain list before it
                 allowed_str = obj.re_match_typed(
-                    # switchport trunk allowed vlan
                     r"^\s+switchport\s+trunk\s+allowed\s+vlan\s+(all|none|\d[\d\-\,\s]*)$",
                     default="_nomatch_",
                     result_type=str,
-                ).lower()
-                if allowed_str != "_nomatch_":
-                    if allowed_str == "none":
-                        # Replace the default allow of 1-4094...
-                        vdict["allowed"] = ""
-                    elif allowed_str == "all":
-                        # Specify an initial list of vlans...
-                        vdict["allowed"] = _all_vlans
-                    else:
-                        # handle **double allowed** statements here...
-                        if vdict["allowed"] == _all_vlans:
-                            vdict["allowed"] = f"{allowed_str}"
-                        elif vdict["allowed"] == "":
-                            vdict["allowed"] = f"{allowed_str}"
-                        else:
-                            vdict["allowed"] += f",{allowed_str}"
-
-        ## Analyze each vdict in sequence and apply to retval sequentially
-        if isinstance(vdict["allowed"], str):
-            if vdict["allowed"] == _all_vlans:
-                if len(retval) != _max_number_vlans:
-                    retval = CiscoRange(f"1-{MAX_VLAN}", result_type=int)
-            elif vdict["allowed"] == "":
-                retval = CiscoRange(result_type=int)
-            elif vdict["allowed"] != "_nomatch_":
-                retval = CiscoRange(vdict["allowed"], result_type=int)
-
-        # Inspect vdict keys in a specific order to ensure best results...
-        for key in ["allowed", "add", "except", "remove"]:
-            _value = vdict[key]
-
-            if isinstance(_value, str):
-                _value = _value.strip()
-            elif _value is None:
-                # There is nothing to be done if _value is None...
-                continue
-
-            if _value == "":
-                continue
-            elif _value != "_nomatch_":
-                ## allowed in the key overrides previous values
-                if key == "allowed":
-                    # When considering 'allowed', reset retval to be empty...
+                ).strip().lower()
+                if allowed_str == "none":
                     retval = CiscoRange(result_type=int)
-                    if _value.lower() == "none":
-                        continue
-                    elif _value.lower() == "all":
-                        retval = CiscoRange(text=f"1-{MAX_VLAN}", result_type=int)
-                    elif isinstance(re.search(r"^\d[\d\-\,\s]*", _value), re.Match):
-                        retval = retval + CiscoRange(_value, result_type=int)
+                    double_allowed = False
+                elif allowed_str == "all":
+                    retval = CiscoRange(text=f"1-{MAX_VLAN}", result_type=int)
+                    double_allowed = False
+                elif allowed_str != "_nomatch_":
+                    if double_allowed:
+                        retval = retval + CiscoRange(allowed_str, result_type=int)
                     else:
-                        error = f"Could not derive a vlan range for {_value}"
-                        logger.error(error)
-                        raise InvalidCiscoEthernetVlan(error)
-
-                elif key == "add":
-                    retval = retval + CiscoRange(_value, result_type=int)
-                elif key == "except" or key == "remove":
-                    retval = retval - CiscoRange(_value, result_type=int)
-                else:
-                    error = f"{key} is an invalid Cisco switched dot1q ethernet trunk action."
-                    logger.error(error)
-                    raise InvalidCiscoEthernetTrunkAction(error)
+                        retval = CiscoRange(allowed_str, result_type=int)
+                    double_allowed = True
+
         return retval
 
     # This method is on BaseIOSIntfLine()
-- 
2.43.0


From d745bc3b948529a35558b9f22849be039b8c5b63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:38 +0000
Subject: [PATCH 28/32] fix: a banner delimiter occurring in the banner
 keywords does not end the banner

---
 ciscoconfparse/ciscoconfparse.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 59b3c61..9548725 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -5566,7 +5566,8 @@ class ConfigList(MutableSequence):
             while bannerdelimit is not None:
                 ## Check whether the banner line has both begin and end delimter
                 if idx == parent.linenum:
-                    parts = parent.text.split(bannerdelimit)
+                    # the banner type itself may contain the delimiter character
+                    parts = parent.text[mm.end("btype"):].split(bannerdelimit)
                     if len(parts) > 2:
                         ## banner has both begin and end delimiter on one line
                         if self.debug > 0:
-- 
2.43.0


From 4d0741bc2d8fde72d8dc14687aa59cb5965b4a7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:44:59 +0000
Subject: [PATCH 29/32] fix: reading a file must not add a blank line after its
 final newline

---
 ciscoconfparse/ciscoconfparse.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 9548725..591665b 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -912,6 +912,9 @@ class CiscoConfParse(object):
                 text = fh.read()
             rgx = re.compile(linesplit_rgx)
             config_lines = rgx.split(text)
+            # The newline which ends the last line does not start another line
+            if config_lines[-1] == "":
+                config_lines.pop()
             return config_lines
 
         except OSError:
-- 
2.43.0


From 7e5ff4c282001a669c88880bdf600b87c5e26891 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:47:21 +0000
Subject: [PATCH 30/32] fix: a brace-syntax comment containing a second
 delimiter is still a comment

---
 ciscoconfparse/ciscoconfparse.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/ciscoconfparse/ciscoconfparse.py b/ciscoconfparse/ciscoconfparse.py
index 591665b..32fa5f6 100644
--- a/ciscoconfparse/ciscoconfparse.py
+++ b/ciscoconfparse/ciscoconfparse.py
@@ -310,7 +310,7 @@ def parse_line_braces(line_txt=None, comment_delimiter=None) -> tuple:
     """
     brace_re = re.compile(junos_re_str, re.VERBOSE)
     comment_re = re.compile(
-        r"^\s*(?P<delimiter>[{0}]+)(?P<comment>[^{0}]*)$".format(
+        r"^\s*(?P<delimiter>[{0}]+)(?P<comment>.*)$".format(
             re.escape(comment_delimiter)
         )
     )
-- 
2.43.0


From c88a7c29a8f54e3a060cfa63228c90e2d112d2f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:56:37 +0000
Subject: [PATCH 31/32] fix: ASA port names ftp and ftp-data were swapped

ftp is TCP port 21 and ftp-data is TCP port 20.
---
 ciscoconfparse/protocol_values.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/ciscoconfparse/protocol_values.py b/ciscoconfparse/protocol_values.py
index 730134c..b5fb662 100644
--- a/ciscoconfparse/protocol_values.py
+++ b/ciscoconfparse/protocol_values.py
@@ -64,8 +64,8 @@ ASA_TCP_PORTS = {
     "echo": 7,
     "exec": 512,
     "finger": 79,
-    "ftp": 20,
-    "ftp-data": 21,
+    "ftp": 21,
+    "ftp-data": 20,
     "gopher": 70,
     "h323": 1720,
     "hostname": 101,
-- 
2.43.0


From be9b4c9257ffb5b041b4a0d88d5488573fa7a934 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:49:45 +0000
Subject: [PATCH 32/32] fix: replace_lines() removed an unrelated last line
 after a parent replaced by nothing

---
 ciscoconfparse/ccp_abc.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/ciscoconfparse/ccp_abc.py b/ciscoconfparse/ccp_abc.py
index 656cf11..4860c49 100644
--- a/ciscoconfparse/ccp_abc.py
+++ b/ciscoconfparse/ccp_abc.py
@@ -1055,7 +1055,9 @@ class BaseCfgLine(metaclass=ABCMeta):
 
         # Delete empty lines
         if retval.strip() == "":
-            self.delete()
+            # ... unless this line already went away with a deleted parent
+            if any(obj is self for obj in self.confobj._list):
+                self.delete()
             return
 
         # The text setter maintains indent / is_comment...
-- 
2.43.0

