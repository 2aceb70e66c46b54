From 6f8141c2dc154d0a14b5f4545e571f8c9ba55dca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:57 +0000
Subject: [PATCH 01/54] fix: separate comments from left to right so no comment
 content is executed

A line with both a bracketed and a semicolon comment only had the semicolon
comment removed, so 'G1 (z5) X1 ; foo' moved to Z5; and a ';' inside brackets
cut the line in the middle of the bracketed comment.
---
 src/pygcode/comment.py | 36 ++++++++++++++++++++++++------------
 1 file changed, 24 insertions(+), 12 deletions(-)

diff --git a/src/pygcode/comment.py b/src/pygcode/comment.py
index 5e9b170..ef11e75 100644
--- a/src/pygcode/comment.py
+++ b/src/pygcode/comment.py
@@ -43,20 +43,32 @@ def split_line(line_text):
     """
     comments_class = None
 
-    # Auto-detect comment type if I can
+    # Auto-detect comment type(s), scanning from left to right: a comment's
+    # content may look like another comment, but it's still just content.
     comments = []
-    block_str = line_text.rstrip("\n") # to remove potential return carriage from comment body
-
-    for cls in sorted(CommentBase.__subclasses__(), key=lambda c: c.ORDER):
-        matches = list(cls.AUTO_REGEX.finditer(block_str))
-        if matches:
-            for match in reversed(matches):
-                # Build list of comment text
-                comments.insert(0, match.group('text'))  # prepend
-                # Remove comments from given block_str
-                block_str = block_str[:match.start()] + block_str[match.end():]
-            comments_class = cls
+    code_strs = []
+    remainder = line_text.rstrip("\n") # to remove potential return carriage from comment body
+
+    while True:
+        # Find the leftmost comment
+        matches = [
+            (match.start(), cls.ORDER, cls, match)
+            for (cls, match) in (
+                (cls, cls.AUTO_REGEX.search(remainder)) for cls in CommentBase.__subclasses__()
+            ) if match
+        ]
+        if not matches:
             break
+        (_, _, cls, match) = min(matches, key=lambda m: m[:2])
+
+        # Split comment from functional code
+        comments.append(match.group('text'))
+        code_strs.append(remainder[:match.start()])
+        remainder = remainder[match.end():]
+        if (comments_class is None) or (cls.ORDER < comments_class.ORDER):
+            comments_class = cls
+
+    block_str = ''.join(code_strs) + remainder
 
     # Create comment instance if content was found
     comment_obj = None
-- 
2.43.0


From d22f966178ad1d71b1ca9ee3935d017672c8f34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:46 +0000
Subject: [PATCH 02/54] fix: a '%' inside a bracketed comment does not start a
 macro

---
 src/pygcode/line.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/line.py b/src/pygcode/line.py
index b4f4aef..2c1160f 100644
--- a/src/pygcode/line.py
+++ b/src/pygcode/line.py
@@ -5,7 +5,10 @@ from .block import Block
 
 class Line(object):
 
-    line_regex = re.compile(r'^(?P<block_and_comment>.*?)?(?P<macro>%.*%?)?\s*$')
+    line_regex = re.compile(
+        # note: a '%' inside (a bracketed comment) does not start a macro
+        r'^(?P<block_and_comment>(?:\([^\)\n]*\)|\((?![^\)\n]*\))|[^%(\n])*?)?(?P<macro>%.*%?)?\s*$'
+    )
 
     def __init__(self, text=None):
         self._text = text
-- 
2.43.0


From 61c3ab740e44288a5a26e2dbf35b4b4d57814971 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:17 +0000
Subject: [PATCH 03/54] fix: reject unrecognised text between words instead of
 skipping it

---
 src/pygcode/words.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/words.py b/src/pygcode/words.py
index 63cd312..e858a6a 100644
--- a/src/pygcode/words.py
+++ b/src/pygcode/words.py
@@ -97,11 +97,14 @@ def text2words(block_text, dialect=None):
         dialect = dialects.get_default()
     word_map = getattr(getattr(dialects, dialect), 'WORD_MAP')
 
-    next_word = re.compile(r'^.*?(?P<letter>[%s])' % ''.join(word_map.keys()), re.IGNORECASE)
+    letters = ''.join(word_map.keys())
+    first_word = re.compile(r'^.*?(?P<letter>[%s])' % letters, re.IGNORECASE)
+    next_word = re.compile(r'^\s*(?P<letter>[%s])' % letters, re.IGNORECASE)
 
     index = 0
     while True:
-        letter_match = next_word.search(block_text[index:])
+        # only whitespace may separate words (anything else is not understood)
+        letter_match = (next_word if index else first_word).search(block_text[index:])
         if letter_match:
             # Letter
             letter = letter_match.group('letter').upper()
-- 
2.43.0


From 5efc192e1d7126771f6df949c80b568d46cdcf14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:20 +0000
Subject: [PATCH 04/54] fix: whitespace between a letter and its value is not
 part of a text value

---
 src/pygcode/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/words.py b/src/pygcode/words.py
index e858a6a..c147ace 100644
--- a/src/pygcode/words.py
+++ b/src/pygcode/words.py
@@ -115,7 +115,7 @@ def text2words(block_text, dialect=None):
             value_match = value_regex.search(block_text[index:])
             if value_match is None:
                 raise GCodeWordStrError("word '%s' value invalid" % letter)
-            value = value_match.group() # matched text
+            value = value_match.group().strip() # matched text
 
             yield Word(letter, value)
 
-- 
2.43.0


From 25488ab2d154af2b9d73d61719192ad13e0f846b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:28:37 +0000
Subject: [PATCH 05/54] fix: words written before their gcode are its
 parameters, not modal parameters

---
 src/pygcode/gcodes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index a2e5f34..530323d 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -1505,6 +1505,15 @@ def words2gcodes(words):
                 param_info['param_to_index'] = word_info['index']
                 param_info['gcode_class'] = None # no longer a valid candidate
 
+    # Words written before the first gcode that accepts them are also its parameters
+    for word_info in word_info_list:
+        if word_info['gcode_class'] or (word_info['param_to_index'] is not None):
+            continue # is a gcode, or already linked to one
+        for gcode_info in word_info_list[word_info['index'] + 1:]:
+            if gcode_info['gcode_class'] and (word_info['word'].letter in gcode_info['gcode_class'].param_letters):
+                word_info['param_to_index'] = gcode_info['index']
+                break
+
     # Map parameters
     parameter_map = defaultdict(list) # {<gcode word index>: [<parameter words>], ... }
     for word_info in word_info_list:
-- 
2.43.0


From f0561951d7c2f1cbc9cb82268b29b3f2826322da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:29:22 +0000
Subject: [PATCH 06/54] fix: print numbers as fixed-point with 3 decimals,
 never as exponents or with fewer digits

---
 src/pygcode/dialects/linuxcnc.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pygcode/dialects/linuxcnc.py b/src/pygcode/dialects/linuxcnc.py
index 7dbe096..2545d39 100644
--- a/src/pygcode/dialects/linuxcnc.py
+++ b/src/pygcode/dialects/linuxcnc.py
@@ -24,15 +24,19 @@ REGEX_POSITIVEINT = re.compile(r'^\s*\d+')
 REGEX_CODE = re.compile(r'^\s*\d+(\.\d)?') # float, but can't be negative
 
 # Value cleaning functions
+def _clean_floatstr(value):
+    # fixed-point; most gcode interpreters don't understand exponents (eg: 1e+06)
+    return "{0:.3f}".format(value).rstrip('0').rstrip('.')
+
 def _clean_codestr(value):
     if value < 10:
-        return "0%g" % value
-    return "%g" % value
+        return "0" + _clean_floatstr(value)
+    return _clean_floatstr(value)
 
 CLEAN_NONE = lambda v: v
-CLEAN_FLOAT = lambda v: "{0:g}".format(round(v, 3))
+CLEAN_FLOAT = _clean_floatstr
 CLEAN_CODE = _clean_codestr
-CLEAN_INT = lambda v: "%g" % v
+CLEAN_INT = lambda v: "%d" % v
 
 WORD_MAP = {
     # Descriptions copied from wikipedia:
-- 
2.43.0


From d6d08545177afc190bcf9e1b8fc31c08640823a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:01 +0000
Subject: [PATCH 07/54] fix: a machine's mode does not share words with the
 gcode that set it

---
 src/pygcode/gcodes.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 530323d..104cb00 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -295,8 +295,8 @@ class GCode(object):
 
     def modal_copy(self):
         """Copy of GCode instance containing only parameters listed in modal_param_letters"""
-        return self.__class__(self.word, *[
-            w for (l, w) in self.params.items()
+        return self.__class__(copy(self.word), *[
+            copy(w) for (l, w) in self.params.items()
             if l in self.modal_param_letters
         ])
 
-- 
2.43.0


From 0eff7fd10d15f479d59217463fec2e23ed9bf028 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:04 +0000
Subject: [PATCH 08/54] fix: copying a State keeps its coordinate systems and
 the selected one

---
 src/pygcode/machine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 46c2ad5..7e34fe4 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -242,7 +242,8 @@ class State(object):
 
     def __copy__(self):
         obj = self.__class__(axes=self._axes)
-        obj.coord_systems = [copy(cs) for cs in self.coord_systems]
+        obj.coord_systems = dict((i, copy(cs)) for (i, cs) in self.coord_systems.items())
+        obj.cur_coord_sys = self.cur_coord_sys
         obj.offset = copy(self.offset)
         return obj
 
-- 
2.43.0


From c1bcfef6038c904a0d50eab7f66c0d2a7bfdbdb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:07 +0000
Subject: [PATCH 09/54] fix: copy of a Block, and deepcopy of a Position,
 without infinite recursion

---
 src/pygcode/block.py   | 2 +-
 src/pygcode/machine.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/block.py b/src/pygcode/block.py
index 74ff168..6954680 100644
--- a/src/pygcode/block.py
+++ b/src/pygcode/block.py
@@ -79,7 +79,7 @@ class Block(object):
                 modal_groups.add(gc.modal_group)
 
     def __getattr__(self, k):
-        if k in self._word_map:
+        if k in self.__dict__.get('_word_map', {}):  # not set while being copied
             for w in self.words:
                 if w.letter == k:
                     return w
diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 7e34fe4..ee88748 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -63,7 +63,7 @@ class Position(object):
 
     # Attributes Get/Set
     def __getattr__(self, key):
-        if key in self.axes:
+        if key in self.__dict__.get('axes', ()):  # axes not set while being (deep)copied
             return self._value[key]
 
         raise AttributeError("'{cls}' object has no attribute '{key}'".format(
-- 
2.43.0


From 7779276767383371e1c1ff80396ab30673a1254f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:11 +0000
Subject: [PATCH 10/54] fix: the coordinate system selected by a machine's
 default mode is the active one

---
 src/pygcode/machine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index ee88748..e734b3d 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -390,6 +390,9 @@ class Machine(object):
         self.abs_range_min = copy(self.abs_pos)
         self.abs_range_max = copy(self.abs_pos)
 
+        # Act on default mode (eg: coordinate system)
+        self.set_mode()
+
     def __copy__(self):
         obj = self.__class__()
         obj.mode = copy(self.mode)
-- 
2.43.0


From f8568cd2930894a48ba5b379ca6a19c1845212ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:31:59 +0000
Subject: [PATCH 11/54] fix: canned cycles on a machine without a selected
 plane are in the XY plane

---
 src/pygcode/gcodes.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 104cb00..c68b00d 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -544,14 +544,15 @@ class GCodeCannedCycle(GCode):
 
     def _process(self, machine):
         moveto_coords = self.get_param_dict(letters=machine.axes)
+        plane = machine.mode.plane_selection or GCodeSelectXYPlane  # default to XY plane
         if isinstance(machine.mode.canned_cycles_return, GCodeCannedCycleReturnToR):
             # canned return is to this.R, not this.Z (plane dependent)
             moveto_coords.update({
-                machine.mode.plane_selection.normal_axis: self.R,
+                plane.normal_axis: self.R,
             })
         else:  # default: GCodeCannedCycleReturnPrevLevel
             # Remove this.Z (plane dependent) value (ie: no machine movement on this axis)
-            moveto_coords.pop(machine.mode.plane_selection.normal_axis, None)
+            moveto_coords.pop(plane.normal_axis, None)
 
         # Process action 'L' times
         loop_count = self.L
-- 
2.43.0


From d8d3cfaac842f37c39b08d0dba1571e05e499827 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:02 +0000
Subject: [PATCH 12/54] fix: incremental canned cycles repeat the in-plane step
 only, not the retract level

---
 src/pygcode/gcodes.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index c68b00d..8681495 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -560,6 +560,8 @@ class GCodeCannedCycle(GCode):
             loop_count = 1
         for i in range(loop_count):
             machine.move_to(**moveto_coords)
+            # the return level is reached once; it's not incremented by each repeat
+            moveto_coords.pop(plane.normal_axis, None)
 
 
 class GCodeDrillingCycle(GCodeCannedCycle):
-- 
2.43.0


From f873873b59bb9b4e6e88d5967d1ae8d6de6844f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:05 +0000
Subject: [PATCH 13/54] fix: in incremental mode, a modal line does not repeat
 increments of earlier lines

---
 src/pygcode/machine.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index e734b3d..989cdb7 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -425,6 +425,11 @@ class Machine(object):
             # forces exception to be raised in next step
         else:
             params = copy(self.mode.motion.params)  # dict
+            if isinstance(self.mode.distance, GCodeIncrementalDistanceMode):
+                # in-plane coordinates are increments for one block only (levels are retained)
+                normal_axis = getattr(self.mode.plane_selection, 'normal_axis', 'Z')
+                for axis in Position.POSSIBLE_AXES - set([normal_axis]):
+                    params.pop(axis, None)
             params.update(dict((w.letter, w) for w in modal_params))  # override retained modal parameters
             (modal_gcodes, unasigned_words) = words2gcodes(
                 [self.mode.motion.word] + list(params.values())
-- 
2.43.0


From d06955dee2cf1cfbf9b752bcd5de36552f9e6ddd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:07 +0000
Subject: [PATCH 14/54] fix: a parameter given twice on a modal line is
 rejected, as it is after a gcode

---
 src/pygcode/machine.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 989cdb7..eaeaaa3 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -430,9 +430,10 @@ class Machine(object):
                 normal_axis = getattr(self.mode.plane_selection, 'normal_axis', 'Z')
                 for axis in Position.POSSIBLE_AXES - set([normal_axis]):
                     params.pop(axis, None)
-            params.update(dict((w.letter, w) for w in modal_params))  # override retained modal parameters
+            for w in modal_params:
+                params.pop(w.letter, None)  # override retained modal parameters
             (modal_gcodes, unasigned_words) = words2gcodes(
-                [self.mode.motion.word] + list(params.values())
+                [self.mode.motion.word] + list(params.values()) + list(modal_params)
             )
 
         if unasigned_words and (not self.ignore_invalid_modal):
-- 
2.43.0


From a8b663bcfbdc6879ee1e9a6f625cc827502f1916 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:54 +0000
Subject: [PATCH 15/54] fix: a block that defines a motion does not also run
 the machine's modal motion

---
 src/pygcode/machine.py | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index eaeaaa3..44857f8 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -412,9 +412,10 @@ class Machine(object):
 
         # TODO: convert coord systems between inches/mm, G20/G21 respectively
 
-    def modal_gcode(self, modal_params):
+    def modal_gcode(self, modal_params, gcodes=()):
         """
-        :param ignore_unassigned: if truthy, unassigned parameters will be ignored
+        :param modal_params: list of Word instances to be applied to current movement mode
+        :param gcodes: list of GCode instances in the same block
         """
 
         if not modal_params:
@@ -423,6 +424,10 @@ class Machine(object):
         if self.mode.motion is None:
             (modal_gcodes, unasigned_words) = ([], modal_params)
             # forces exception to be raised in next step
+        elif any(g.modal_group == GCodeMotion.modal_group for g in gcodes):
+            # block defines new motion (which doesn't accept these parameters),
+            # modal motion is irrelevant
+            (modal_gcodes, unasigned_words) = ([], modal_params)
         else:
             params = copy(self.mode.motion.params)  # dict
             if isinstance(self.mode.distance, GCodeIncrementalDistanceMode):
@@ -468,7 +473,7 @@ class Machine(object):
         """
         assert isinstance(block, Block), "invalid parameter"
         gcodes = copy(block.gcodes)
-        modal_gcode = self.modal_gcode(block.modal_params)
+        modal_gcode = self.modal_gcode(block.modal_params, gcodes)
         if modal_gcode:
             gcodes.append(modal_gcode)
         return sorted(gcodes)
@@ -502,7 +507,7 @@ class Machine(object):
         # Add modal gcode to list of given gcodes
         modal_params = kwargs.get('modal_params', [])
         if modal_params:
-            modal_gcode = self.modal_gcode(modal_params)
+            modal_gcode = self.modal_gcode(modal_params, gcode_list)
             if modal_gcode:
                 gcode_list.append(modal_gcode)
 
-- 
2.43.0


From 7113734cc9b2252b2a98468f39912d1a0caa7482 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:32:57 +0000
Subject: [PATCH 16/54] fix: modal lines of canned cycles use the distance mode
 and plane set by the same block

---
 src/pygcode/machine.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 44857f8..3038ca8 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -430,9 +430,13 @@ class Machine(object):
             (modal_gcodes, unasigned_words) = ([], modal_params)
         else:
             params = copy(self.mode.motion.params)  # dict
-            if isinstance(self.mode.distance, GCodeIncrementalDistanceMode):
+            # modes the motion will be executed in (may be changed by the same block)
+            block_modes = dict((g.modal_group, g) for g in gcodes)
+            distance = block_modes.get(MODAL_GROUP_MAP['distance'], self.mode.distance)
+            plane = block_modes.get(MODAL_GROUP_MAP['plane_selection'], self.mode.plane_selection)
+            if isinstance(distance, GCodeIncrementalDistanceMode):
                 # in-plane coordinates are increments for one block only (levels are retained)
-                normal_axis = getattr(self.mode.plane_selection, 'normal_axis', 'Z')
+                normal_axis = getattr(plane, 'normal_axis', 'Z')
                 for axis in Position.POSSIBLE_AXES - set([normal_axis]):
                     params.pop(axis, None)
             for w in modal_params:
-- 
2.43.0


From abab1d677e3d412e1a093b0e883cc94b77631347 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:33:00 +0000
Subject: [PATCH 17/54] fix: a line with nothing but ignored parameters does
 not repeat the modal motion

---
 src/pygcode/machine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 3038ca8..fc5d68a 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -463,6 +463,9 @@ class Machine(object):
                     ' '.join(str(x) for x in unasigned_words), self.mode
                 ))
 
+        if not [w for w in modal_params if w not in unasigned_words]:
+            return None # all were ignored, no motion is given
+
         if modal_gcodes:
             assert len(modal_gcodes) == 1, "more than 1 modal code found"
             return modal_gcodes[0]
-- 
2.43.0


From 3912782092e6fc93f8aa9b5fcc98cf9bccf262ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:40 +0000
Subject: [PATCH 18/54] fix: axis words of G92 are its parameters, they are not
 a movement

---
 src/pygcode/gcodes.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 8681495..ae4af4f 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -1326,6 +1326,7 @@ class GCodeMoveInMachineCoords(GCodeNonModal):
 
 class GCodeCoordSystemOffset(GCodeNonModal):
     """G92: Coordinate System Offset"""
+    param_letters = set('XYZABCUVW')
     word_key = Word('G', 92)
     exec_order = 230
 
-- 
2.43.0


From cb20e47b271979975094acfedf69545ee5e39ca5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:35:43 +0000
Subject: [PATCH 19/54] fix: G80 does not take the axis words of a motion in
 the same block

---
 src/pygcode/gcodes.py  |  1 +
 src/pygcode/machine.py | 16 +++++++++++-----
 2 files changed, 12 insertions(+), 5 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index ae4af4f..7b44c06 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -511,6 +511,7 @@ class GCodeRigidTapping(GCodeMotion):
 
 class GCodeCancelCannedCycle(GCodeMotion):
     """G80: Cancel Canned Cycle"""
+    param_letters = set()  # axis parameters belong to the motion it shares a block with (if any)
     word_key = Word('G', 80)
     # Modal Group
     #   Technically G80 belongs to the motion modal group, however it's often
diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index fc5d68a..a85ea8f 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -5,7 +5,7 @@ from collections import defaultdict
 from .gcodes import (
     MODAL_GROUP_MAP, GCode,
     # Modal GCodes
-    GCodeMotion,
+    GCodeMotion, GCodeCancelCannedCycle,
     GCodeIncrementalDistanceMode,
     GCodeUseInches, GCodeUseMillimeters,
     # Utilities
@@ -424,9 +424,12 @@ class Machine(object):
         if self.mode.motion is None:
             (modal_gcodes, unasigned_words) = ([], modal_params)
             # forces exception to be raised in next step
-        elif any(g.modal_group == GCodeMotion.modal_group for g in gcodes):
+        elif any(
+                (g.modal_group == GCodeMotion.modal_group) or isinstance(g, GCodeCancelCannedCycle)
+                for g in gcodes
+        ):
             # block defines new motion (which doesn't accept these parameters),
-            # modal motion is irrelevant
+            # or cancels it; modal motion is irrelevant
             (modal_gcodes, unasigned_words) = ([], modal_params)
         else:
             params = copy(self.mode.motion.params)  # dict
@@ -494,8 +497,11 @@ class Machine(object):
         if self.mode.motion is None:
             # no modal motion, modal parameters are all invalid
             block.modal_params = []
-        elif any(True for g in block.gcodes if g.modal_group == GCodeMotion.modal_group):
-            # block defines new motion, modal motion is irrelevant
+        elif any(
+                (g.modal_group == GCodeMotion.modal_group) or isinstance(g, GCodeCancelCannedCycle)
+                for g in block.gcodes
+        ):
+            # block defines new motion (or cancels it), modal motion is irrelevant
             block.modal_params = []
         else:
             (modal_gcodes, unasigned_words) = words2gcodes(
-- 
2.43.0


From dd07ca783741d28ffa369ff7a05feb9c83285ed3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:36:25 +0000
Subject: [PATCH 20/54] fix: a Position only ever has values for the axes it's
 defined with

---
 src/pygcode/machine.py | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index a85ea8f..ba6d6a3 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -51,13 +51,20 @@ class Position(object):
         self._unit = kwargs.pop('unit', self.default_unit)
 
         # Initial Values
+        self._assert_axes(kwargs)
         self._value = defaultdict(lambda: 0.0, dict((k, 0.0) for k in self.axes))
         self._value.update(kwargs)
 
     def __copy__(self):
         return self.__class__(axes=copy(self.axes), unit=self._unit, **self.values)
 
+    def _assert_axes(self, axes):
+        undefined_axes = set(axes) - self.axes
+        if undefined_axes:
+            raise MachineInvalidAxis("axes not defined to be set %s" % undefined_axes)
+
     def update(self, **coords):
+        self._assert_axes(coords)  # before any are set
         for (k, v) in coords.items():
             setattr(self, k, v)
 
@@ -153,6 +160,7 @@ class Position(object):
             p2 = copy(p2)
             p2.unit = p1.unit
         return cls(
+            axes=copy(p1.axes),
             unit=p1.unit,
             **dict(
                 (k, key(getattr(p1, k), getattr(p2, k))) for k in p1.values
@@ -178,7 +186,7 @@ class Position(object):
 
     @property
     def vector(self):
-        return Vector3(self._value['X'], self._value['Y'], self._value['Z'])
+        return Vector3(*(self._value.get(k, 0.0) for k in 'XYZ'))  # without creating values
 
     # String representation(s)
     def __repr__(self):
-- 
2.43.0


From f6859180118a0b19d62a0696f0af4a797e3393ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:22 +0000
Subject: [PATCH 21/54] fix: undefined names when linearizing arcs by default
 method, or with bad parameters

---
 src/pygcode/gcodes.py    | 8 ++++----
 src/pygcode/transform.py | 2 +-
 2 files changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 7b44c06..f77209f 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -432,17 +432,17 @@ class GCodeArcMove(GCodeMotion):
         # --- Parameter Groups
         # XYZ: at least 1
         if not params_xyz:
-            raise GCodeParameterError("no XYZ parameters set for destination: %r" % arc_gcode)
+            raise GCodeParameterError("no XYZ parameters set for destination: %r" % self)
         # IJK or R: only in 1 group
         if params_ijk and params_r:
-            raise GCodeParameterError("both IJK and R parameters defined: %r" % arc_gcode)
+            raise GCodeParameterError("both IJK and R parameters defined: %r" % self)
         # IJKR: at least 1
         if not params_ijkr:
-            raise GCodeParameterError("neither IJK or R parameters defined: %r" % arc_gcode)
+            raise GCodeParameterError("neither IJK or R parameters defined: %r" % self)
 
         # --- Parameter Values
         if params_r and (self.R == 0):
-            raise GCodeParameterError("cannot plot a circle with a radius of zero: %r" % arc_gcode)
+            raise GCodeParameterError("cannot plot a circle with a radius of zero: %r" % self)
 
 
 class GCodeArcMoveCW(GCodeArcMove):
diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index da8a3c0..c47cf93 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -231,7 +231,7 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     """
     # set defaults
     if method_class is None:
-        method_class = DEFAULT_LA_method_class
+        method_class = DEFAULT_LA_METHOD
     if plane is None:
         plane = DEFAULT_LA_PLANE()
     if dist_mode is None:
-- 
2.43.0


From 1c59241d7ec27b3cb16e903ba4b2c1a20f4f4057 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:25 +0000
Subject: [PATCH 22/54] fix: linearized arcs in the ZX and YZ planes sweep the
 correct angle

---
 src/pygcode/transform.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index c47cf93..4734426 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -324,8 +324,8 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
             arc_p_center = arc_p_center_options[1]
 
     # Arc's angle (first rotated back to xy plane)
-    xy_c2start = plane.quat * (arc_p_start - arc_p_center)
-    xy_c2end = plane.quat * (arc_p_end - arc_p_center)
+    xy_c2start = plane.quat.conjugated() * (arc_p_start - arc_p_center)
+    xy_c2end = plane.quat.conjugated() * (arc_p_end - arc_p_center)
     (a1, a2) = (atan2(*xy_c2start.yx), atan2(*xy_c2end.yx))
     if isinstance(arc_gcode, GCodeArcMoveCW):
         arc_angle = (a1 - a2) % (2 * pi)
-- 
2.43.0


From 00acc78aa9cd0b0be16ab2e46ffbe5aa62c3c643 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:38:28 +0000
Subject: [PATCH 23/54] fix: linearize full circles

---
 src/pygcode/transform.py | 22 ++++++++++++++--------
 1 file changed, 14 insertions(+), 8 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 4734426..9847708 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -214,6 +214,7 @@ DEFAULT_LA_METHOD = ArcLinearizeMid
 DEFAULT_LA_PLANE = GCodeSelectXYPlane
 DEFAULT_LA_DISTMODE = GCodeAbsoluteDistanceMode
 DEFAULT_LA_ARCDISTMODE = GCodeIncrementalArcDistanceMode
+LA_TOLERANCE = 1e-6 # points closer than this are considered to be the same
 
 def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
                   dist_mode=None, arc_dist_mode=None,
@@ -300,6 +301,7 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     # Find Circle's Center (given radius)
     arc_span = arc_p_end - arc_p_start  # vector spanning from start -> end
     arc_span_mid = arc_span * 0.5  # arc_span's midpoint
+    full_circle = abs(arc_span) < LA_TOLERANCE  # start & end are the same point
     if arc_radius < abs(arc_span_mid):
         raise GCodeParameterError("circle cannot reach endpoint at this radius: %r" % arc_gcode)
     # vector from arc_span midpoint -> circle's centre
@@ -314,14 +316,16 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     else:
         # IJK: radius vertex specified
         # arc_p_center is defined as per IJK params, this is an adjustment
-        arc_p_center_options = [
-            arc_p_start + arc_span_mid - radius_mid_vect,
-            arc_p_start + arc_span_mid + radius_mid_vect
-        ]
-        if abs(arc_p_center_options[0] - arc_p_center) < abs(arc_p_center_options[1] - arc_p_center):
-            arc_p_center = arc_p_center_options[0]
-        else:
-            arc_p_center = arc_p_center_options[1]
+        # (not possible for a full circle, it has no span)
+        if not full_circle:
+            arc_p_center_options = [
+                arc_p_start + arc_span_mid - radius_mid_vect,
+                arc_p_start + arc_span_mid + radius_mid_vect
+            ]
+            if abs(arc_p_center_options[0] - arc_p_center) < abs(arc_p_center_options[1] - arc_p_center):
+                arc_p_center = arc_p_center_options[0]
+            else:
+                arc_p_center = arc_p_center_options[1]
 
     # Arc's angle (first rotated back to xy plane)
     xy_c2start = plane.quat.conjugated() * (arc_p_start - arc_p_center)
@@ -331,6 +335,8 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
         arc_angle = (a1 - a2) % (2 * pi)
     else:
         arc_angle = -((a2 - a1) % (2 * pi))
+    if full_circle:
+        arc_angle = 2 * pi if isinstance(arc_gcode, GCodeArcMoveCW) else -2 * pi
 
     # Helical interpolation
     helical_start = plane.normal * arc_start.dot(plane.normal)
-- 
2.43.0


From 57d3384e7766e928af1685c077bfa6d70ee67fcb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:41 +0000
Subject: [PATCH 24/54] fix: linearize semicircles despite floating point
 errors, reject zero radius arcs

---
 src/pygcode/transform.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 9847708..447215f 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -302,10 +302,14 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     arc_span = arc_p_end - arc_p_start  # vector spanning from start -> end
     arc_span_mid = arc_span * 0.5  # arc_span's midpoint
     full_circle = abs(arc_span) < LA_TOLERANCE  # start & end are the same point
-    if arc_radius < abs(arc_span_mid):
+    if arc_radius < LA_TOLERANCE:
+        raise GCodeParameterError("cannot plot a circle with a radius of zero: %r" % arc_gcode)
+    if arc_radius < abs(arc_span_mid) - LA_TOLERANCE:
         raise GCodeParameterError("circle cannot reach endpoint at this radius: %r" % arc_gcode)
     # vector from arc_span midpoint -> circle's centre
-    radius_mid_vect = arc_span_mid.normalized().cross(plane.normal) * sqrt(arc_radius**2 - abs(arc_span_mid)**2)
+    radius_mid_vect = arc_span_mid.normalized().cross(plane.normal) * sqrt(
+        max(0., arc_radius**2 - abs(arc_span_mid)**2)  # 0 for semicircles (mitigates rounding errors)
+    )
 
     if 'R' in arc_gcode.params:
         # R: radius magnitude specified
-- 
2.43.0


From e1c74df4215b9dfd45861820662e92f546dd2833 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:40:44 +0000
Subject: [PATCH 25/54] fix: linearize all turns of an arc with a number of
 turns (P)

---
 src/pygcode/transform.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 447215f..3ba7591 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -341,6 +341,10 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
         arc_angle = -((a2 - a1) % (2 * pi))
     if full_circle:
         arc_angle = 2 * pi if isinstance(arc_gcode, GCodeArcMoveCW) else -2 * pi
+    if arc_gcode.P:
+        # P: number of turns (full turns are added to the arc for P > 1)
+        extra_turns = max(0, int(arc_gcode.P) - 1)
+        arc_angle += extra_turns * (2 * pi if isinstance(arc_gcode, GCodeArcMoveCW) else -2 * pi)
 
     # Helical interpolation
     helical_start = plane.normal * arc_start.dot(plane.normal)
-- 
2.43.0


From a589c7a5ea4228fc1be235d38119f03c59620485 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:51 +0000
Subject: [PATCH 26/54] fix: simplify canned cycles without both X and Y given

---
 src/pygcode/transform.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 3ba7591..12a14c3 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -437,11 +437,15 @@ def simplify_canned_cycle(canned_gcode, start_pos,
             if isinstance(dist_mode, GCodeAbsoluteDistanceMode):
                 retract_depth = canned_gcode.R
                 drill_depth = canned_gcode.Z
-                cur_hole_p_axis = Vector3(x=canned_gcode.X, y=canned_gcode.Y)
+                # axes not given remain where they are
+                cur_hole_p_axis = Vector3(
+                    x=start_pos.X if canned_gcode.X is None else canned_gcode.X,
+                    y=start_pos.Y if canned_gcode.Y is None else canned_gcode.Y,
+                )
             else:  # incremental
                 retract_depth = start_pos.Z + canned_gcode.R
                 drill_depth = retract_depth + canned_gcode.Z
-                cur_hole_p_axis += Vector3(x=canned_gcode.X, y=canned_gcode.Y)
+                cur_hole_p_axis += Vector3(x=canned_gcode.X or 0., y=canned_gcode.Y or 0.)
 
             if retract_depth < drill_depth:
                 raise NotImplementedError("drilling upward is not supported")
-- 
2.43.0


From 904bb829862a8ff33829efa97f80d6275a96268b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:54 +0000
Subject: [PATCH 27/54] fix: reject peck drilling without a peck increment,
 instead of looping infinitely

---
 src/pygcode/transform.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 12a14c3..0d6c09f 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -424,6 +424,11 @@ def simplify_canned_cycle(canned_gcode, start_pos,
     assert isinstance(dist_mode, (GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode)), "bad dist_mode type: %r" % dist_mode
     assert isinstance(retract_mode, GCodeCannedReturnMode), "bad retract_mode type: %r" % retract_mode
 
+    # Parameter Value Assertions
+    is_pecking = isinstance(canned_gcode, (GCodeDrillingCyclePeck, GCodeDrillingCycleChipBreaking))
+    if is_pecking and not canned_gcode.Q:
+        raise GCodeParameterError("pecking requires a (non-zero) Q increment: %r" % canned_gcode)
+
     # TODO: implement for planes other than XY
     if not isinstance(plane, GCodeSelectXYPlane):
         raise NotImplementedError("simplifying canned cycles for planes other than X/Y has not been implemented")
@@ -464,7 +469,7 @@ def simplify_canned_cycle(canned_gcode, start_pos,
 
             # Drill hole
             delta = drill_depth - retract_depth  # full depth
-            if isinstance(canned_gcode, (GCodeDrillingCyclePeck, GCodeDrillingCycleChipBreaking)):
+            if is_pecking:
                 delta = -abs(canned_gcode.Q)
 
             cur_depth = retract_depth
-- 
2.43.0


From f4efef50eea6b87a6d348f26a91d7142d15ae0f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:45:58 +0000
Subject: [PATCH 28/54] fix: simplify canned cycles with L0 as they're
 processed, once

---
 src/pygcode/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 0d6c09f..28c3717 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -435,7 +435,7 @@ def simplify_canned_cycle(canned_gcode, start_pos,
 
     @_gcodes_abs2rel(start_pos=start_pos, dist_mode=dist_mode, axes=axes)
     def inner():
-        cycle_count = 1 if (canned_gcode.L is None) else canned_gcode.L
+        cycle_count = canned_gcode.L or 1  # same as when processed by a machine
         cur_hole_p_axis = start_pos.vector
         for i in range(cycle_count):
             # Calculate Depths
-- 
2.43.0


From 3adab3b9f6cb7bcc104b50b712e7a1fda624a7ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:10 +0000
Subject: [PATCH 29/54] fix: simplified canned cycles dwell (as long as told
 to), and feed out, if the cycle does

---
 src/pygcode/transform.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 28c3717..52878b1 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -7,6 +7,8 @@ from .gcodes import GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode
 from .gcodes import GCodeAbsoluteArcDistanceMode, GCodeIncrementalArcDistanceMode
 from .gcodes import GCodeCannedCycle
 from .gcodes import GCodeDrillingCyclePeck, GCodeDrillingCycleDwell, GCodeDrillingCycleChipBreaking
+from .gcodes import GCodeBoringCycleFeedOut, GCodeBoringCycleDwellFeedOut
+from .gcodes import GCodeDwell
 from .gcodes import GCodeCannedReturnMode, GCodeCannedCycleReturnPrevLevel, GCodeCannedCycleReturnToR
 from .gcodes import _gcodes_abs2rel
 
@@ -499,10 +501,13 @@ def simplify_canned_cycle(canned_gcode, start_pos,
                 last_depth = cur_depth
 
             # Dwell
-            if isinstance(canned_gcode, GCodeDrillingCycleDwell):
-                yield GCodeDwell(P=0.5) # TODO: configurable pause
+            if isinstance(canned_gcode, (GCodeDrillingCycleDwell, GCodeBoringCycleDwellFeedOut)):
+                yield GCodeDwell(P=0.5 if canned_gcode.P is None else canned_gcode.P)
 
             # Return
-            yield GCodeRapidMove(Z=final_depth)
+            if isinstance(canned_gcode, (GCodeBoringCycleFeedOut, GCodeBoringCycleDwellFeedOut)):
+                yield GCodeLinearMove(Z=final_depth)  # feed out
+            else:
+                yield GCodeRapidMove(Z=final_depth)
 
     return inner()
-- 
2.43.0


From f0816e10e5469859ba48765c3c520fd0e9ff4fac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:13 +0000
Subject: [PATCH 30/54] fix: do not simplify a threading cycle as if it were
 drilling

---
 src/pygcode/transform.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 52878b1..7859420 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -7,7 +7,7 @@ from .gcodes import GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode
 from .gcodes import GCodeAbsoluteArcDistanceMode, GCodeIncrementalArcDistanceMode
 from .gcodes import GCodeCannedCycle
 from .gcodes import GCodeDrillingCyclePeck, GCodeDrillingCycleDwell, GCodeDrillingCycleChipBreaking
-from .gcodes import GCodeBoringCycleFeedOut, GCodeBoringCycleDwellFeedOut
+from .gcodes import GCodeBoringCycleFeedOut, GCodeBoringCycleDwellFeedOut, GCodeThreadingCycle
 from .gcodes import GCodeDwell
 from .gcodes import GCodeCannedReturnMode, GCodeCannedCycleReturnPrevLevel, GCodeCannedCycleReturnToR
 from .gcodes import _gcodes_abs2rel
@@ -426,6 +426,9 @@ def simplify_canned_cycle(canned_gcode, start_pos,
     assert isinstance(dist_mode, (GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode)), "bad dist_mode type: %r" % dist_mode
     assert isinstance(retract_mode, GCodeCannedReturnMode), "bad retract_mode type: %r" % retract_mode
 
+    if isinstance(canned_gcode, GCodeThreadingCycle):
+        raise NotImplementedError("simplifying threading cycles has not been implemented")
+
     # Parameter Value Assertions
     is_pecking = isinstance(canned_gcode, (GCodeDrillingCyclePeck, GCodeDrillingCycleChipBreaking))
     if is_pecking and not canned_gcode.Q:
-- 
2.43.0


From 6f02ea98c2497cc0417fb6c8db1f9058ac532386 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:30 +0000
Subject: [PATCH 31/54] fix: pygcode-norm expands canned cycles with the active
 return mode

---
 scripts/pygcode-norm | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/pygcode-norm b/scripts/pygcode-norm
index 8b721d9..755afc1 100755
--- a/scripts/pygcode-norm
+++ b/scripts/pygcode-norm
@@ -344,6 +344,7 @@ for line_str in args.infile.readlines():
                 'start_pos': machine.pos,
                 'plane': machine.mode.plane_selection,
                 'dist_mode': machine.mode.distance,
+                'retract_mode': machine.mode.canned_cycles_return,
                 'axes': machine.axes,
             }
             for simplified_gcode in omit_redundant_modes(simplify_canned_cycle(**simplify_canned_params)):
-- 
2.43.0


From 6f0a11a0c2b4a25a53f2b1577e824aa1aacc32bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:34 +0000
Subject: [PATCH 32/54] fix: pygcode-norm --singles does not lose modal
 parameters and macros

---
 scripts/pygcode-norm | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/pygcode-norm b/scripts/pygcode-norm
index 755afc1..be8608e 100755
--- a/scripts/pygcode-norm
+++ b/scripts/pygcode-norm
@@ -251,8 +251,10 @@ def write(gcodes, modal_params=tuple(), comment=None, macro=None):
     """
     assert not(args.full and modal_params), "with full specified, this should never be called with modal_params"
     if args.singles and len(gcodes) > 1:
-        for g in sorted(gcodes):
+        gcodes = sorted(gcodes)
+        for g in gcodes[:-1]:
             write([g], comment=comment)
+        write(gcodes[-1:], comment=comment, macro=macro)
     else:
         # remove comments
         if args.rm_comments:
@@ -351,7 +353,8 @@ for line_str in args.infile.readlines():
                 write([simplified_gcode])
 
     else:
-        if args.full:
+        if args.full or (args.singles and line.block.gcodes):
+            # (singles: modal parameters are also a command, separate from the block's gcodes)
             write(effective_gcodes, comment=line.comment, macro=line.macro)
         else:
             write(line.block.gcodes, modal_params=line.block.modal_params, comment=line.comment, macro=line.macro)
-- 
2.43.0


From 7441bb3064153f14edb157fb04c5fd069743cce8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:36 +0000
Subject: [PATCH 33/54] fix: pygcode-norm keeps the macro of lines that are
 expanded

---
 scripts/pygcode-norm | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/scripts/pygcode-norm b/scripts/pygcode-norm
index be8608e..d49902c 100755
--- a/scripts/pygcode-norm
+++ b/scripts/pygcode-norm
@@ -285,12 +285,13 @@ def gcodes2str(gcodes):
 
 
 @contextmanager
-def split_and_process(gcode_list, gcode_class, comment):
+def split_and_process(gcode_list, gcode_class, comment, macro=None):
     """
     Split gcodes by given class, yields given class instance
     :param gcode_list: list of GCode instances
     :param gcode_class: class inheriting from GCode (directly, or indirectly)
     :param comment: Comment instance, or None
+    :param macro: macro string, or None
     """
     (befores, (g,), afters) = split_gcodes(gcode_list, gcode_class)
     # write & process those before gcode_class instance
@@ -304,9 +305,9 @@ def split_and_process(gcode_list, gcode_class, comment):
     if afters:
         write(afters)
         machine.process_gcodes(*afters)
-    # write comment (if given)
-    if comment:
-        write([], comment=line.comment)
+    # write comment, and macro (if given)
+    if comment or macro:
+        write([], comment=comment, macro=macro)
 
 
 
@@ -323,7 +324,7 @@ for line_str in args.infile.readlines():
     effective_gcodes = machine.block_modal_gcodes(line.block)
 
     if args.arc_linearize and any(isinstance(g, GCodeArcMove) for g in effective_gcodes):
-        with split_and_process(effective_gcodes, GCodeArcMove, line.comment) as arc:
+        with split_and_process(effective_gcodes, GCodeArcMove, line.comment, line.macro) as arc:
             write([], comment=Comment("linearized arc: %r" % arc))
             linearize_params = {
                 'arc_gcode': arc,
@@ -339,7 +340,7 @@ for line_str in args.infile.readlines():
                 write([linear_gcode])
 
     elif args.canned_expand and any((g.word in args.canned_codes) for g in effective_gcodes):
-        with split_and_process(effective_gcodes, GCodeCannedCycle, line.comment) as canned:
+        with split_and_process(effective_gcodes, GCodeCannedCycle, line.comment, line.macro) as canned:
             write([], comment=Comment("expanded: %r" % canned))
             simplify_canned_params = {
                 'canned_gcode': canned,
-- 
2.43.0


From 8a72efd6ee3bce1ee4eb0af4dae84990d6f82dbf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:08 +0000
Subject: [PATCH 34/54] fix: pygcode-crop supports conditions on angular axes,
 and positions them

---
 scripts/pygcode-crop | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index b5d1d66..f28fcfd 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -186,6 +186,7 @@ args = parser.parse_args()
 # --- Machine
 class NullMachine(Machine):
     MODE_CLASS = type('NullMode', (Mode,), {'default_mode': ''})
+    axes = set('XYZABC')
 
 machine = NullMachine()
 
@@ -223,10 +224,14 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             print(GCodeRapidMove(**{
                 plane.normal_axis: getattr(old_machine.abs_range_max, plane.normal_axis),
             }))
-            # rapid move to X,Y
+            # rapid move to X,Y (and angular axes, if they've been used)
+            used_axes = set(
+                axis for axis in 'ABC'
+                if getattr(old_machine.abs_range_min, axis) or getattr(old_machine.abs_range_max, axis)
+            )
             print(GCodeRapidMove(**dict(
                 (k, v) for (k, v) in old_machine.pos.values.items()
-                if k in plane.plane_axes
+                if k in (plane.plane_axes | used_axes)
             )))
             # rapid move to Z (machine.pos.Z)
             print(GCodeRapidMove(**{
-- 
2.43.0


From 47a1f526d81efc16fe6dbad0b1f6fbe28a1e5f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:25 +0000
Subject: [PATCH 35/54] fix: pygcode-crop traverses in absolute mode, then
 resumes distance and motion modes

---
 scripts/pygcode-crop | 31 +++++++++++++++++++++++++++++--
 1 file changed, 29 insertions(+), 2 deletions(-)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index f28fcfd..fe2f02a 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -16,7 +16,9 @@ for pygcode_lib_type in ('installed_lib', 'relative_lib'):
         from pygcode import Machine, Mode
         from pygcode import Line, Comment
         from pygcode import GCodePlaneSelect, GCodeSelectXYPlane
-        from pygcode import GCodeRapidMove
+        from pygcode import GCodeMotion, GCodeRapidMove
+        from pygcode import GCodeCannedCycle, GCodeCancelCannedCycle
+        from pygcode import GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode
 
     except ImportError:
         import sys, os, inspect
@@ -192,6 +194,7 @@ machine = NullMachine()
 
 pre_crop = True
 post_crop = False
+resume_modal = False  # True if a modal motion has yet to be resumed
 
 (is_first, is_last) = args.range
 
@@ -208,7 +211,11 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             pre_crop = False
 
             # Set machine's accumulated mode (from everything that's been cut)
-            mode_str = str(old_machine.mode)
+            #   (motion, and distance modes affect the traverse, so they're set after it)
+            traverse_groups = (GCodeMotion.modal_group, GCodeAbsoluteDistanceMode.modal_group)
+            mode_str = ' '.join(
+                str(g) for g in old_machine.mode.gcodes if g.modal_group not in traverse_groups
+            )
             if mode_str:
                 print(Comment("machine mode before cropping"))
                 print(mode_str)
@@ -220,6 +227,9 @@ for (i, line_str) in enumerate(args.infile.readlines()):
 
             # --- position machine before first cropped line
             print(Comment("traverse into position, up, over, and down"))
+            is_incremental = isinstance(old_machine.mode.distance, GCodeIncrementalDistanceMode)
+            if is_incremental:
+                print(GCodeAbsoluteDistanceMode())
             # rapid move to Z (maximum Z the machine has experienced thus far)
             print(GCodeRapidMove(**{
                 plane.normal_axis: getattr(old_machine.abs_range_max, plane.normal_axis),
@@ -237,6 +247,14 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             print(GCodeRapidMove(**{
                 plane.normal_axis: getattr(old_machine.pos, plane.normal_axis),
             }))
+            # return to distance, and motion modes
+            if is_incremental:
+                print(old_machine.mode.distance)
+            if isinstance(old_machine.mode.motion, GCodeCannedCycle):
+                # not to be executed here, it's on the first line to repeat it
+                resume_modal = True
+            elif not isinstance(old_machine.mode.motion, GCodeRapidMove):
+                print(old_machine.mode.motion or GCodeCancelCannedCycle())
             print('')
 
     if (pre_crop, post_crop) == (False, False):
@@ -247,4 +265,13 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             break
         else:
             # inside cropping area
+            gcodes = old_machine.block_modal_gcodes(line.block)
+            if resume_modal and any(
+                    (g.modal_group == GCodeMotion.modal_group) or isinstance(g, GCodeCancelCannedCycle)
+                    for g in gcodes
+            ):
+                # first motion after cropping, must not rely on modal motion
+                resume_modal = False
+                line.block.gcodes = gcodes
+                line.block.modal_params = []
             print(line)
-- 
2.43.0


From ebc63dd81bbdb0b1b670f32bc1146a8f2540ff2d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:38 +0000
Subject: [PATCH 36/54] fix: S in the same block as G96 sets the spindle speed

---
 src/pygcode/gcodes.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index f77209f..ccbdbb1 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -730,7 +730,7 @@ class GCodeSpindleSpeedMode(GCodeSpindle):
 
 class GCodeSpindleConstantSurfaceSpeedMode(GCodeSpindleSpeedMode):
     """G96: Spindle Constant Surface Speed"""
-    param_letters = set('DS')
+    param_letters = set('D')  # S is it's own gcode, makes no sense to be here
     word_key = Word('G', 96)
 
 
-- 
2.43.0


From d3826d4d5b661597dc211b33ddedf8d7f6f843ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:42 +0000
Subject: [PATCH 37/54] fix: a machine's mode retains the parameters of
 compensation, blending and spindle modes

---
 src/pygcode/gcodes.py | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index ccbdbb1..fc7b6fd 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -732,12 +732,14 @@ class GCodeSpindleConstantSurfaceSpeedMode(GCodeSpindleSpeedMode):
     """G96: Spindle Constant Surface Speed"""
     param_letters = set('D')  # S is it's own gcode, makes no sense to be here
     word_key = Word('G', 96)
+    modal_param_letters = set('D')
 
 
 class GCodeSpindleRPMMode(GCodeSpindleSpeedMode):
     """G97: Spindle RPM Speed"""
     param_letters = set('D')
     word_key = Word('G', 97)
+    modal_param_letters = set('D')
 
 
 
@@ -782,6 +784,7 @@ class GCodeToolLengthOffset(GCodeToolLength):
     """G43: Tool Length Offset"""
     param_letters = set('H')
     word_key = Word('G', 43)
+    modal_param_letters = set('H')
 
 
 class GCodeDynamicToolLengthOffset(GCodeToolLength):
@@ -793,6 +796,7 @@ class GCodeAddToolLengthOffset(GCodeToolLength):
     """G43.2: Appkly Additional Tool Length Offset"""
     param_letters = set('H')
     word_key = Word('G', 43.2)
+    modal_param_letters = set('H')
 
 
 class GCodeCancelToolLengthOffset(GCodeToolLength):
@@ -954,24 +958,28 @@ class GCodeCutterCompLeft(GCodeCutterRadiusComp):
     """G41: Cutter Radius Compensation (left)"""
     param_letters = set('D')
     word_key = Word('G', 41)
+    modal_param_letters = set('D')
 
 
 class GCodeCutterCompRight(GCodeCutterRadiusComp):
     """G42: Cutter Radius Compensation (right)"""
     param_letters = set('D')
     word_key = Word('G', 42)
+    modal_param_letters = set('D')
 
 
 class GCodeDynamicCutterCompLeft(GCodeCutterRadiusComp):
     """G41.1: Dynamic Cutter Radius Compensation (left)"""
     param_letters = set('DL')
     word_key = Word('G', 41.1)
+    modal_param_letters = set('DL')
 
 
 class GCodeDynamicCutterCompRight(GCodeCutterRadiusComp):
     """G42.1: Dynamic Cutter Radius Compensation (right)"""
     param_letters = set('DL')
     word_key = Word('G', 42.1)
+    modal_param_letters = set('DL')
 
 
 # ======================= Path Control Mode =======================
@@ -998,6 +1006,7 @@ class GCodePathBlendingMode(GCodePathControlMode):
     """G64: Path Blending"""
     param_letters = set('PQ')
     word_key = Word('G', 64)
+    modal_param_letters = set('PQ')
 
 
 # ======================= Return Mode in Canned Cycles =======================
-- 
2.43.0


From 15352fae52d9b5a01d8894bab0fcdf06aaa7ede2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:39 +0000
Subject: [PATCH 38/54] fix: axes not given on a modal line don't move,
 whichever way they were last given

---
 src/pygcode/machine.py | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index ba6d6a3..e0d7d66 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -441,15 +441,12 @@ class Machine(object):
             (modal_gcodes, unasigned_words) = ([], modal_params)
         else:
             params = copy(self.mode.motion.params)  # dict
-            # modes the motion will be executed in (may be changed by the same block)
+            # plane the motion will be executed in (may be changed by the same block)
             block_modes = dict((g.modal_group, g) for g in gcodes)
-            distance = block_modes.get(MODAL_GROUP_MAP['distance'], self.mode.distance)
             plane = block_modes.get(MODAL_GROUP_MAP['plane_selection'], self.mode.plane_selection)
-            if isinstance(distance, GCodeIncrementalDistanceMode):
-                # in-plane coordinates are increments for one block only (levels are retained)
-                normal_axis = getattr(plane, 'normal_axis', 'Z')
-                for axis in Position.POSSIBLE_AXES - set([normal_axis]):
-                    params.pop(axis, None)
+            # only levels are retained, in-plane axes that aren't given don't move
+            for axis in Position.POSSIBLE_AXES - set([getattr(plane, 'normal_axis', 'Z')]):
+                params.pop(axis, None)
             for w in modal_params:
                 params.pop(w.letter, None)  # override retained modal parameters
             (modal_gcodes, unasigned_words) = words2gcodes(
-- 
2.43.0


From f4714628485617962f2353f924e3fe282c4176aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:43 +0000
Subject: [PATCH 39/54] fix: effective gcodes of a block don't share words with
 the machine's mode

---
 src/pygcode/machine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index e0d7d66..9e0457a 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -450,7 +450,8 @@ class Machine(object):
             for w in modal_params:
                 params.pop(w.letter, None)  # override retained modal parameters
             (modal_gcodes, unasigned_words) = words2gcodes(
-                [self.mode.motion.word] + list(params.values()) + list(modal_params)
+                # (copies: the returned gcode must not share words with this machine's mode)
+                [copy(w) for w in [self.mode.motion.word] + list(params.values())] + list(modal_params)
             )
 
         if unasigned_words and (not self.ignore_invalid_modal):
-- 
2.43.0


From a80daa19c4aa8d48dee1f2ef797759c38ad49b48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:48:47 +0000
Subject: [PATCH 40/54] fix: assigning a parameter the gcode doesn't accept is
 rejected

---
 src/pygcode/gcodes.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index fc7b6fd..6f80f18 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -286,6 +286,9 @@ class GCode(object):
             else:
                 self.add_parameter(Word(key, value))
 
+        elif len(key) == 1 and key.isupper():
+            raise GCodeParameterError("invalid parameter for %s: %s" % (self.__class__.__name__, key))
+
         else:
             self.__dict__[key] = value
 
-- 
2.43.0


From 9cc21883d79421dcfedc9740e6cc47eea41743ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:44 +0000
Subject: [PATCH 41/54] fix: whitespace before a macro is not part of the
 comment

Reading 'G1 ; note %macro' kept the trailing space as comment text, so each
time the line was read and printed again it grew by one space.
---
 src/pygcode/line.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/line.py b/src/pygcode/line.py
index 2c1160f..7c4571b 100644
--- a/src/pygcode/line.py
+++ b/src/pygcode/line.py
@@ -25,7 +25,7 @@ class Line(object):
             block_and_comment = match.group('block_and_comment')
             self.macro = match.group('macro')
 
-            (block_str, comment) = split_line(block_and_comment)
+            (block_str, comment) = split_line(block_and_comment.rstrip())
             self.block = Block(block_str)
             if comment:
                 self.comment = comment
-- 
2.43.0


From b4b9ccda6e9b88de4031dca903949786046fa74d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:48 +0000
Subject: [PATCH 42/54] fix: leading whitespace of joined comments is not
 printed

'(  a) ; b' printed as ';   a. b', which reads back without the whitespace, and
prints as another line.
---
 src/pygcode/comment.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/comment.py b/src/pygcode/comment.py
index ef11e75..3ebe331 100644
--- a/src/pygcode/comment.py
+++ b/src/pygcode/comment.py
@@ -20,7 +20,8 @@ class CommentSemicolon(CommentBase):
     AUTO_REGEX = re.compile(r'\s*;\s*(?P<text>.*)$')
 
     def __str__(self):
-        return "; {text}".format(text=self.text)
+        # (leading whitespace isn't part of the text when read)
+        return "; {text}".format(text=self.text.lstrip())
 
 
 class CommentBrackets(CommentBase):
-- 
2.43.0


From 22b9d100a388ba37394b2c77568b73e888c8568c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:52 +0000
Subject: [PATCH 43/54] fix: print a program name after all other words of its
 block

The text of an O word continues to the end of the block, so printing it before
the block's modal parameters made them a part of the program's name.
---
 src/pygcode/block.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/block.py b/src/pygcode/block.py
index 6954680..109e836 100644
--- a/src/pygcode/block.py
+++ b/src/pygcode/block.py
@@ -1,6 +1,6 @@
 import re
 from .words import text2words
-from .gcodes import words2gcodes
+from .gcodes import words2gcodes, GCodeProgramName
 from . import dialects
 
 
@@ -108,4 +108,7 @@ class Block(object):
     __nonzero__ = __bool__  # python < 3 compatability
 
     def __str__(self):
-        return ' '.join(str(x) for x in (self.gcodes + self.modal_params))
+        items = self.gcodes + self.modal_params
+        # text of a program name continues to the end of the block: must be last
+        items.sort(key=lambda x: isinstance(x, GCodeProgramName))
+        return ' '.join(str(x) for x in items)
-- 
2.43.0


From 4060e16c805505a4ef49094cd4d2745d2530b546 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:49 +0000
Subject: [PATCH 44/54] fix: setting a position's unit converts its coordinates

__setattr__ wrote the instance's __dict__, bypassing the unit property, so
assigning a unit changed nothing (and min/max/== of mixed units compared
unconverted numbers).
---
 src/pygcode/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 9e0457a..d2e9e63 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -84,7 +84,7 @@ class Position(object):
         elif key in self.POSSIBLE_AXES:
             raise MachineInvalidAxis("'%s' axis is not defined to be set" % key)
         else:
-            self.__dict__[key] = value
+            super(Position, self).__setattr__(key, value)  # (unit is a property)
 
     # Equality
     def __eq__(self, other):
-- 
2.43.0


From 45f85b772d4767bfc34dc42e14e7a1e065b90e12 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:47 +0000
Subject: [PATCH 45/54] fix: radius-form arcs shorter than the maximum error
 are not rejected

A short arc is neither impossible nor ambiguous; only arcs ending where they
start are.
---
 src/pygcode/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 7859420..6605649 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -273,7 +273,7 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     arc_gcode.assert_params()
     if 'R' in arc_gcode.params:
         # R: radius magnitude specified
-        if abs(arc_p_start - arc_p_end) < max_error:
+        if abs(arc_p_start - arc_p_end) < LA_TOLERANCE:
             raise GCodeParameterError(
                 "arc starts and finishes in the same spot; cannot "
                 "speculate where circle's center is: %r" % arc_gcode
-- 
2.43.0


From bc5209ce84a9302a6b0140aae72fc901593bca37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:49:04 +0000
Subject: [PATCH 46/54] fix: pecking does not drill the bottom of a hole twice
 due to rounding errors

---
 src/pygcode/transform.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 6605649..f2e753b 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -395,6 +395,7 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
 
 # ==================== Un-Canning ====================
 
+SCC_TOLERANCE = 1e-6 # depths closer than this are considered to be the same (mitigates rounding errors)
 DEFAULT_SCC_PLANE = GCodeSelectXYPlane
 DEFAULT_SCC_DISTMODE = GCodeAbsoluteDistanceMode
 DEFAULT_SCC_RETRACTMODE = GCodeCannedCycleReturnPrevLevel
@@ -482,7 +483,7 @@ def simplify_canned_cycle(canned_gcode, start_pos,
             while True:
                 # Determine new depth
                 cur_depth += delta
-                if cur_depth < drill_depth:
+                if cur_depth < drill_depth + SCC_TOLERANCE:
                     cur_depth = drill_depth
 
                 # Rapid to just above, then slowly drill through delta
-- 
2.43.0


From bcd1e79cbbf9d73e608ec7f6cc9d9e4fd86cc24d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:56:50 +0000
Subject: [PATCH 47/54] fix: redundant motion words are kept if the active
 motion would lend its parameters

---
 src/pygcode/utils.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/utils.py b/src/pygcode/utils.py
index d5fcbcf..508bc9b 100644
--- a/src/pygcode/utils.py
+++ b/src/pygcode/utils.py
@@ -81,9 +81,11 @@ def omit_redundant_modes(gcode_iter):
         if (g.modal_group is not None) and (m.mode.modal_groups[g.modal_group] is not None):
             # g-code has a modal groups, and the machine's mode
             # (of the same modal group) is not None
-            if m.mode.modal_groups[g.modal_group].word == g.word:
+            mode_gcode = m.mode.modal_groups[g.modal_group]
+            if mode_gcode.word == g.word:
                 # machine's mode & g-code's mode match (no machine change)
-                if g.modal_group == MODAL_GROUP_MAP['motion']:
+                # (unless the mode retains parameters that g-code doesn't have)
+                if (g.modal_group == MODAL_GROUP_MAP['motion']) and set(mode_gcode.params).issubset(g.params):
                     # finally: g-code sets a motion mode in the machine
                     g = copy(g) # duplicate gcode object
                     # stop redundant g-code word from being printed
-- 
2.43.0


From 7a76ea0e546504316c8b5c2737664770fcacc654 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:28 +0000
Subject: [PATCH 48/54] fix: pygcode-crop keeps an explicit absolute distance
 mode

---
 scripts/pygcode-crop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index fe2f02a..f0d537f 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -228,7 +228,7 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             # --- position machine before first cropped line
             print(Comment("traverse into position, up, over, and down"))
             is_incremental = isinstance(old_machine.mode.distance, GCodeIncrementalDistanceMode)
-            if is_incremental:
+            if old_machine.mode.distance is not None:
                 print(GCodeAbsoluteDistanceMode())
             # rapid move to Z (maximum Z the machine has experienced thus far)
             print(GCodeRapidMove(**{
-- 
2.43.0


From 14debe75adc679b8435898a890b6bd4cea27af54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:19 +0000
Subject: [PATCH 49/54] fix: a canned cycle without R moves no machine to None
 (G99)

---
 src/pygcode/gcodes.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 6f80f18..8303a31 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -551,9 +551,9 @@ class GCodeCannedCycle(GCode):
         plane = machine.mode.plane_selection or GCodeSelectXYPlane  # default to XY plane
         if isinstance(machine.mode.canned_cycles_return, GCodeCannedCycleReturnToR):
             # canned return is to this.R, not this.Z (plane dependent)
-            moveto_coords.update({
-                plane.normal_axis: self.R,
-            })
+            moveto_coords.pop(plane.normal_axis, None)
+            if self.R is not None:  # (without a level to return to, this axis isn't moved)
+                moveto_coords[plane.normal_axis] = self.R
         else:  # default: GCodeCannedCycleReturnPrevLevel
             # Remove this.Z (plane dependent) value (ie: no machine movement on this axis)
             moveto_coords.pop(plane.normal_axis, None)
-- 
2.43.0


From c532fba9197f9122333a813c5fe106f744b04ac2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:10 +0000
Subject: [PATCH 50/54] fix: aligning parallel or opposite vectors

---
 src/pygcode/utils.py | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/src/pygcode/utils.py b/src/pygcode/utils.py
index 508bc9b..6f1e01d 100644
--- a/src/pygcode/utils.py
+++ b/src/pygcode/utils.py
@@ -1,11 +1,12 @@
 import sys
+from math import atan2
 from copy import copy, deepcopy
 
 from euclid3 import Vector3, Quaternion
 
 
 # ==================== Geometric Utilities ====================
-def quat2align(to_align, with_this, normalize=True):
+def quat2align(to_align, with_this, normalize=True, opposite_axis=None):
     """
     Calculate Quaternion that will rotate a given vector to align with another
     can accumulate with perpendicular alignemnt vectors like so:
@@ -17,6 +18,7 @@ def quat2align(to_align, with_this, normalize=True):
                       # coordinate system defined by (v1,v2), as (z,x) respectively.
     :param to_align: Vector3 instance to be rotated
     :param with_this: Vector3 instance as target for alignment
+    :param opposite_axis: axis to rotate about if vectors are opposite (perpendicular to both)
     :result: Quaternion such that: q * to_align == with_this
     """
     # Normalize Vectors
@@ -24,10 +26,17 @@ def quat2align(to_align, with_this, normalize=True):
         to_align = to_align.normalized()
         with_this = with_this.normalized()
     # Calculate Quaternion
-    return Quaternion.new_rotate_axis(
-        angle=to_align.angle(with_this),
-        axis=to_align.cross(with_this),
-    )
+    axis = to_align.cross(with_this)
+    angle = atan2(abs(axis), to_align.dot(with_this))
+    if (angle > 1.) and (abs(axis) < 1e-9):
+        # vectors are opposite: their cross product defines no axis
+        axis = opposite_axis
+        if axis is None:  # anything perpendicular will do
+            axis = max(
+                (to_align.cross(v) for v in (Vector3(1., 0., 0.), Vector3(0., 1., 0.), Vector3(0., 0., 1.))),
+                key=abs
+            )
+    return Quaternion.new_rotate_axis(angle=angle, axis=axis)
 
 
 def quat2coord_system(origin1, origin2, align1, align2):
@@ -48,7 +57,7 @@ def quat2coord_system(origin1, origin2, align1, align2):
     align2 = align2.normalized()
     # Calculate Quaternion
     q1 = quat2align(origin1, align1, normalize=False)
-    q2 = quat2align(q1 * origin2, align2, normalize=False)
+    q2 = quat2align(q1 * origin2, align2, normalize=False, opposite_axis=align1)
     return q2 * q1
 
 
-- 
2.43.0


From 00850012f9478e800506027394fb3c0e9497e2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:23 +0000
Subject: [PATCH 51/54] fix: set_default sets the default dialect

---
 src/pygcode/dialects/__init__.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygcode/dialects/__init__.py b/src/pygcode/dialects/__init__.py
index 9a079a3..65eed12 100644
--- a/src/pygcode/dialects/__init__.py
+++ b/src/pygcode/dialects/__init__.py
@@ -52,4 +52,5 @@ def set_default(name):
     """
 
     # TODO: verify valid name
+    global _DEFAULT
     _DEFAULT = name
-- 
2.43.0


From 8f71dfc91328ade44753d387f915af404c211578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:09:27 +0000
Subject: [PATCH 52/54] fix: the words of a text are of the dialect it is read
 in

---
 src/pygcode/block.py | 2 +-
 src/pygcode/words.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/block.py b/src/pygcode/block.py
index 109e836..fba96be 100644
--- a/src/pygcode/block.py
+++ b/src/pygcode/block.py
@@ -42,7 +42,7 @@ class Block(object):
             self._text = text  # cleaned up block content
 
             # Get words from text, and group into gcodes
-            self.words = list(text2words(self._text))
+            self.words = list(text2words(self._text, dialect=dialect))
             (self.gcodes, self.modal_params) = words2gcodes(self.words)
 
             # Verification
diff --git a/src/pygcode/words.py b/src/pygcode/words.py
index c147ace..47f5aa7 100644
--- a/src/pygcode/words.py
+++ b/src/pygcode/words.py
@@ -117,7 +117,7 @@ def text2words(block_text, dialect=None):
                 raise GCodeWordStrError("word '%s' value invalid" % letter)
             value = value_match.group().strip() # matched text
 
-            yield Word(letter, value)
+            yield Word(letter, value, dialect=dialect)
 
             index += value_match.end() # propogate index to end of value
         else:
-- 
2.43.0


From 4faf5d457555ea53f8fbcfef0301377d5921d3c6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:50:47 +0000
Subject: [PATCH 53/54] fix: equality of positions with different units is
 symmetric

---
 src/pygcode/machine.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index d2e9e63..0f04605 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -93,6 +93,8 @@ class Position(object):
         else:
             if self._unit == other._unit:
                 return self._value == other._value
+            elif other._unit == UNIT_METRIC:
+                return other.__eq__(self)  # (25.4 is exact, its inverse is not)
             else:
                 x = copy(other)
                 x.unit = self._unit
-- 
2.43.0


From 3d72137244a276c83fa16e542944b3d8f3203e26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:38:41 +0000
Subject: [PATCH 54/54] fix: an arc's given center is adjusted by no more than
 its own error

---
 src/pygcode/transform.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index f2e753b..4323e91 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -329,9 +329,13 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
                 arc_p_start + arc_span_mid + radius_mid_vect
             ]
             if abs(arc_p_center_options[0] - arc_p_center) < abs(arc_p_center_options[1] - arc_p_center):
-                arc_p_center = arc_p_center_options[0]
+                arc_p_center_adjusted = arc_p_center_options[0]
             else:
-                arc_p_center = arc_p_center_options[1]
+                arc_p_center_adjusted = arc_p_center_options[1]
+            # no adjustment beyond the given center's own error (which is what
+            # becomes of it when start & end are close to each other)
+            if abs(arc_p_center_adjusted - arc_p_center) <= abs(abs(r1) - abs(r2)):
+                arc_p_center = arc_p_center_adjusted
 
     # Arc's angle (first rotated back to xy plane)
     xy_c2start = plane.quat.conjugated() * (arc_p_start - arc_p_center)
-- 
2.43.0

