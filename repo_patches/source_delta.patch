From c8954635b11e98aa06002de637da137d60ff04c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:58:18 +0000
Subject: [PATCH 01/43] fix: Position.vector no longer adds axes to the
 position it reads

---
 src/pygcode/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 46c2ad5..7b75a4e 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -178,7 +178,7 @@ class Position(object):
 
     @property
     def vector(self):
-        return Vector3(self._value['X'], self._value['Y'], self._value['Z'])
+        return Vector3(*(self._value.get(k, 0.0) for k in 'XYZ'))
 
     # String representation(s)
     def __repr__(self):
-- 
2.43.0


From a8be958a3ad61c97e95fa6eeb7fc4411f9304137 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:00:27 +0000
Subject: [PATCH 02/43] fix: setting Position.unit converts the coordinates

---
 src/pygcode/machine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 7b75a4e..4e940e7 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -77,7 +77,8 @@ class Position(object):
         elif key in self.POSSIBLE_AXES:
             raise MachineInvalidAxis("'%s' axis is not defined to be set" % key)
         else:
-            self.__dict__[key] = value
+            # via object: properties (eg: unit) must reach their setter
+            object.__setattr__(self, key, value)
 
     # Equality
     def __eq__(self, other):
-- 
2.43.0


From 73ad51ec52ef16fa5b122f1deac17514a773f15b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:17 +0000
Subject: [PATCH 03/43] fix: canned cycle's return level does not drift with
 repeats, nor need a plane mode or R

---
 src/pygcode/gcodes.py | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index a2e5f34..c587003 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -544,14 +544,16 @@ class GCodeCannedCycle(GCode):
 
     def _process(self, machine):
         moveto_coords = self.get_param_dict(letters=machine.axes)
-        if isinstance(machine.mode.canned_cycles_return, GCodeCannedCycleReturnToR):
+        plane = machine.mode.plane_selection
+        normal_axis = plane.normal_axis if plane else 'Z'  # default: XY plane
+        if isinstance(machine.mode.canned_cycles_return, GCodeCannedCycleReturnToR) and (self.R is not None):
             # canned return is to this.R, not this.Z (plane dependent)
             moveto_coords.update({
-                machine.mode.plane_selection.normal_axis: self.R,
+                normal_axis: self.R,
             })
         else:  # default: GCodeCannedCycleReturnPrevLevel
             # Remove this.Z (plane dependent) value (ie: no machine movement on this axis)
-            moveto_coords.pop(machine.mode.plane_selection.normal_axis, None)
+            moveto_coords.pop(normal_axis, None)
 
         # Process action 'L' times
         loop_count = self.L
@@ -559,6 +561,9 @@ class GCodeCannedCycle(GCode):
             loop_count = 1
         for i in range(loop_count):
             machine.move_to(**moveto_coords)
+            if isinstance(machine.mode.distance, GCodeIncrementalDistanceMode):
+                # return level is only relative to the level prior to the first repeat
+                moveto_coords.pop(normal_axis, None)
 
 
 class GCodeDrillingCycle(GCodeCannedCycle):
-- 
2.43.0


From 3ff8b416f6c0528764e2033511f5728141472217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:30:13 +0000
Subject: [PATCH 04/43] fix: copying a Machine keeps its coordinate systems

---
 src/pygcode/machine.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 4e940e7..a98cd85 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -243,7 +243,8 @@ class State(object):
 
     def __copy__(self):
         obj = self.__class__(axes=self._axes)
-        obj.coord_systems = [copy(cs) for cs in self.coord_systems]
+        obj.coord_systems = dict((i, copy(cs)) for (i, cs) in self.coord_systems.items())
+        obj.cur_coord_sys = self.cur_coord_sys
         obj.offset = copy(self.offset)
         return obj
 
-- 
2.43.0


From 21a7f81de03473e4bcc332fc57dbd3f70785b45c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:39:56 +0000
Subject: [PATCH 05/43] fix: numbers are written with all their digits

---
 src/pygcode/dialects/linuxcnc.py | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/src/pygcode/dialects/linuxcnc.py b/src/pygcode/dialects/linuxcnc.py
index 7dbe096..f99e94b 100644
--- a/src/pygcode/dialects/linuxcnc.py
+++ b/src/pygcode/dialects/linuxcnc.py
@@ -24,15 +24,19 @@ REGEX_POSITIVEINT = re.compile(r'^\s*\d+')
 REGEX_CODE = re.compile(r'^\s*\d+(\.\d)?') # float, but can't be negative
 
 # Value cleaning functions
+def _clean_number(value, places):
+    # fixed-point: "%g" would drop digits, or print an exponent
+    return "{0:.{1}f}".format(value, places).rstrip('0').rstrip('.')
+
 def _clean_codestr(value):
     if value < 10:
-        return "0%g" % value
-    return "%g" % value
+        return "0" + _clean_number(value, 1)
+    return _clean_number(value, 1)
 
 CLEAN_NONE = lambda v: v
-CLEAN_FLOAT = lambda v: "{0:g}".format(round(v, 3))
+CLEAN_FLOAT = lambda v: _clean_number(v, 3)
 CLEAN_CODE = _clean_codestr
-CLEAN_INT = lambda v: "%g" % v
+CLEAN_INT = lambda v: "%d" % v
 
 WORD_MAP = {
     # Descriptions copied from wikipedia:
-- 
2.43.0


From b27d6f1c5fbbc0e1293fff8f3dfb3edaccd397af Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:41:34 +0000
Subject: [PATCH 06/43] fix: blanks before a text value (T 1) are not part of
 it

---
 src/pygcode/words.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/words.py b/src/pygcode/words.py
index 63cd312..0a12bfe 100644
--- a/src/pygcode/words.py
+++ b/src/pygcode/words.py
@@ -112,7 +112,7 @@ def text2words(block_text, dialect=None):
             value_match = value_regex.search(block_text[index:])
             if value_match is None:
                 raise GCodeWordStrError("word '%s' value invalid" % letter)
-            value = value_match.group() # matched text
+            value = value_match.group().lstrip() # matched text
 
             yield Word(letter, value)
 
-- 
2.43.0


From 3c3421386752a30742b510b4be4d918d3ab76c6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:39 +0000
Subject: [PATCH 07/43] fix: comments of both types, and their delimiters
 inside one another, are split correctly

---
 src/pygcode/comment.py | 43 ++++++++++++++++++++++++++++--------------
 src/pygcode/line.py    |  2 +-
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/src/pygcode/comment.py b/src/pygcode/comment.py
index 5e9b170..a41ebae 100644
--- a/src/pygcode/comment.py
+++ b/src/pygcode/comment.py
@@ -41,27 +41,42 @@ def split_line(line_text):
     :param line_text: line from gcode file
     :return: tuple of (str(<functional block code>), CommentBase(<comment(s)>))
     """
-    comments_class = None
-
-    # Auto-detect comment type if I can
     comments = []
-    block_str = line_text.rstrip("\n") # to remove potential return carriage from comment body
-
-    for cls in sorted(CommentBase.__subclasses__(), key=lambda c: c.ORDER):
-        matches = list(cls.AUTO_REGEX.finditer(block_str))
-        if matches:
-            for match in reversed(matches):
-                # Build list of comment text
-                comments.insert(0, match.group('text'))  # prepend
-                # Remove comments from given block_str
-                block_str = block_str[:match.start()] + block_str[match.end():]
-            comments_class = cls
+    comments_class = None
+    code = []
+    line_text = line_text.rstrip() # to remove potential return carriage from comment body
+
+    # Comments are found from left to right, so that a delimiter inside a
+    # comment is just part of that comment's text.
+    index = 0
+    while True:
+        matches = [
+            (cls, match) for (cls, match) in (
+                (cls, cls.AUTO_REGEX.search(line_text, index))
+                for cls in CommentBase.__subclasses__()
+            ) if match
+        ]
+        if not matches:
             break
+        (cls, match) = min(matches, key=lambda m: m[1].start())
+        # Build list of comment text
+        comments.append(match.group('text'))
+        comments_class = cls
+        # Remove comments from block_str
+        code.append(line_text[index:match.start()])
+        index = match.end()
+    block_str = ''.join(code) + line_text[index:]
 
     # Create comment instance if content was found
     comment_obj = None
     if comments_class:
         comment_text = comments_class.MULTICOMMENT_JOINER.join(comments)
+        if len(comments) > 1:
+            # possibly a mix of both types
+            if ')' in comment_text:
+                comment_text = comment_text.strip()
+            else:
+                comments_class = CommentBrackets
         comment_obj = comments_class(comment_text)
 
     return (block_str, comment_obj)
diff --git a/src/pygcode/line.py b/src/pygcode/line.py
index b4f4aef..5b777ca 100644
--- a/src/pygcode/line.py
+++ b/src/pygcode/line.py
@@ -5,7 +5,7 @@ from .block import Block
 
 class Line(object):
 
-    line_regex = re.compile(r'^(?P<block_and_comment>.*?)?(?P<macro>%.*%?)?\s*$')
+    line_regex = re.compile(r'^(?P<block_and_comment>(\([^\)\n]*\)|[^%\n])*?)?(?P<macro>%.*%?)?\s*$')
 
     def __init__(self, text=None):
         self._text = text
-- 
2.43.0


From 58180d1fc3f419cac08fbcf03ec1d81799d4e7ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:42:41 +0000
Subject: [PATCH 08/43] fix: a printed block's bare parameters are not claimed
 by its codes

---
 src/pygcode/block.py | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/block.py b/src/pygcode/block.py
index 74ff168..d119f5a 100644
--- a/src/pygcode/block.py
+++ b/src/pygcode/block.py
@@ -108,4 +108,10 @@ class Block(object):
     __nonzero__ = __bool__  # python < 3 compatability
 
     def __str__(self):
-        return ' '.join(str(x) for x in (self.gcodes + self.modal_params))
+        # Modal parameters belong to no code in this block, so they're printed
+        # before the first code that would claim any of them if read again.
+        modal_letters = set(w.letter for w in self.modal_params)
+        index = 0
+        while (index < len(self.gcodes)) and not (modal_letters & self.gcodes[index].param_letters):
+            index += 1
+        return ' '.join(str(x) for x in (self.gcodes[:index] + self.modal_params + self.gcodes[index:]))
-- 
2.43.0


From 6341a613839eb1877fa02c4e791cc7fe6558bdf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:50:03 +0000
Subject: [PATCH 09/43] fix: quat2align and quat2coord_system align opposite
 vectors

---
 src/pygcode/utils.py | 15 ++++++++++++---
 1 file changed, 12 insertions(+), 3 deletions(-)

diff --git a/src/pygcode/utils.py b/src/pygcode/utils.py
index d5fcbcf..84df4cf 100644
--- a/src/pygcode/utils.py
+++ b/src/pygcode/utils.py
@@ -5,7 +5,7 @@ from euclid3 import Vector3, Quaternion
 
 
 # ==================== Geometric Utilities ====================
-def quat2align(to_align, with_this, normalize=True):
+def quat2align(to_align, with_this, normalize=True, half_turn_axis=None):
     """
     Calculate Quaternion that will rotate a given vector to align with another
     can accumulate with perpendicular alignemnt vectors like so:
@@ -17,6 +17,8 @@ def quat2align(to_align, with_this, normalize=True):
                       # coordinate system defined by (v1,v2), as (z,x) respectively.
     :param to_align: Vector3 instance to be rotated
     :param with_this: Vector3 instance as target for alignment
+    :param half_turn_axis: axis to rotate about if vectors are opposite (Vector3
+                           perpendicular to them, default is any such vector)
     :result: Quaternion such that: q * to_align == with_this
     """
     # Normalize Vectors
@@ -24,9 +26,16 @@ def quat2align(to_align, with_this, normalize=True):
         to_align = to_align.normalized()
         with_this = with_this.normalized()
     # Calculate Quaternion
+    axis = to_align.cross(with_this)
+    if (to_align.dot(with_this) < 0) and (abs(axis) < 1e-9):
+        # opposite vectors; their cross product gives no axis
+        axis = half_turn_axis
+        if axis is None:
+            not_parallel = Vector3(1., 0., 0.) if abs(to_align.x) < abs(to_align.y) else Vector3(0., 1., 0.)
+            axis = to_align.cross(not_parallel)
     return Quaternion.new_rotate_axis(
         angle=to_align.angle(with_this),
-        axis=to_align.cross(with_this),
+        axis=axis,
     )
 
 
@@ -48,7 +57,7 @@ def quat2coord_system(origin1, origin2, align1, align2):
     align2 = align2.normalized()
     # Calculate Quaternion
     q1 = quat2align(origin1, align1, normalize=False)
-    q2 = quat2align(q1 * origin2, align2, normalize=False)
+    q2 = quat2align(q1 * origin2, align2, normalize=False, half_turn_axis=align1)
     return q2 * q1
 
 
-- 
2.43.0


From 684c12b531bdd33140f085b72df61012fb855bf5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:06 +0000
Subject: [PATCH 10/43] fix: expanding a G82 canned cycle does not raise
 NameError

---
 src/pygcode/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index da8a3c0..4d345a6 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -1,6 +1,6 @@
 from math import sin, cos, tan, asin, acos, atan2, pi, sqrt, ceil
 
-from .gcodes import GCodeLinearMove, GCodeRapidMove
+from .gcodes import GCodeLinearMove, GCodeRapidMove, GCodeDwell
 from .gcodes import GCodeArcMove, GCodeArcMoveCW, GCodeArcMoveCCW
 from .gcodes import GCodePlaneSelect, GCodeSelectXYPlane, GCodeSelectYZPlane, GCodeSelectZXPlane
 from .gcodes import GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode
-- 
2.43.0


From 32baf168682416d391f993e4cd0b55d09d60ecfa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:08 +0000
Subject: [PATCH 11/43] fix: expanding a canned cycle without X or Y stays at
 the current coordinate

---
 src/pygcode/transform.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 4d345a6..b74cb87 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -423,11 +423,14 @@ def simplify_canned_cycle(canned_gcode, start_pos,
             if isinstance(dist_mode, GCodeAbsoluteDistanceMode):
                 retract_depth = canned_gcode.R
                 drill_depth = canned_gcode.Z
-                cur_hole_p_axis = Vector3(x=canned_gcode.X, y=canned_gcode.Y)
+                if canned_gcode.X is not None:
+                    cur_hole_p_axis.x = canned_gcode.X
+                if canned_gcode.Y is not None:
+                    cur_hole_p_axis.y = canned_gcode.Y
             else:  # incremental
                 retract_depth = start_pos.Z + canned_gcode.R
                 drill_depth = retract_depth + canned_gcode.Z
-                cur_hole_p_axis += Vector3(x=canned_gcode.X, y=canned_gcode.Y)
+                cur_hole_p_axis += Vector3(x=canned_gcode.X or 0., y=canned_gcode.Y or 0.)
 
             if retract_depth < drill_depth:
                 raise NotImplementedError("drilling upward is not supported")
-- 
2.43.0


From 83b98e7821d0d9f46996fde4770decfd47d3f1ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:10 +0000
Subject: [PATCH 12/43] fix: expanding a canned cycle with L0 moves as the
 machine does

---
 src/pygcode/transform.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index b74cb87..1c7938b 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -416,7 +416,9 @@ def simplify_canned_cycle(canned_gcode, start_pos,
 
     @_gcodes_abs2rel(start_pos=start_pos, dist_mode=dist_mode, axes=axes)
     def inner():
-        cycle_count = 1 if (canned_gcode.L is None) else canned_gcode.L
+        cycle_count = canned_gcode.L
+        if (cycle_count is None) or (cycle_count <= 0):
+            cycle_count = 1  # as it is when processed by a machine
         cur_hole_p_axis = start_pos.vector
         for i in range(cycle_count):
             # Calculate Depths
-- 
2.43.0


From 7013f81413265a345a8544e7ddb568b4f9663549 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:13 +0000
Subject: [PATCH 13/43] fix: expanding a pecking cycle without a peck increment
 is refused

---
 src/pygcode/transform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 1c7938b..256958e 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -410,6 +410,9 @@ def simplify_canned_cycle(canned_gcode, start_pos,
     assert isinstance(dist_mode, (GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode)), "bad dist_mode type: %r" % dist_mode
     assert isinstance(retract_mode, GCodeCannedReturnMode), "bad retract_mode type: %r" % retract_mode
 
+    if isinstance(canned_gcode, (GCodeDrillingCyclePeck, GCodeDrillingCycleChipBreaking)) and not canned_gcode.Q:
+        raise GCodeParameterError("peck increment (Q) must be non-zero: %r" % canned_gcode)
+
     # TODO: implement for planes other than XY
     if not isinstance(plane, GCodeSelectXYPlane):
         raise NotImplementedError("simplifying canned cycles for planes other than X/Y has not been implemented")
-- 
2.43.0


From 929622c632401269c12846afbbe7ddc5a7ca8594 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:31:15 +0000
Subject: [PATCH 14/43] fix: expanded dwell and boring cycles dwell for P and
 feed out

---
 src/pygcode/transform.py | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 256958e..1b1f808 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -7,6 +7,7 @@ from .gcodes import GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode
 from .gcodes import GCodeAbsoluteArcDistanceMode, GCodeIncrementalArcDistanceMode
 from .gcodes import GCodeCannedCycle
 from .gcodes import GCodeDrillingCyclePeck, GCodeDrillingCycleDwell, GCodeDrillingCycleChipBreaking
+from .gcodes import GCodeBoringCycleFeedOut, GCodeBoringCycleDwellFeedOut
 from .gcodes import GCodeCannedReturnMode, GCodeCannedCycleReturnPrevLevel, GCodeCannedCycleReturnToR
 from .gcodes import _gcodes_abs2rel
 
@@ -484,8 +485,13 @@ def simplify_canned_cycle(canned_gcode, start_pos,
                 last_depth = cur_depth
 
             # Dwell
-            if isinstance(canned_gcode, GCodeDrillingCycleDwell):
-                yield GCodeDwell(P=0.5) # TODO: configurable pause
+            if isinstance(canned_gcode, (GCodeDrillingCycleDwell, GCodeBoringCycleDwellFeedOut)):
+                # TODO: configurable default pause
+                yield GCodeDwell(P=0.5 if (canned_gcode.P is None) else canned_gcode.P)
+
+            # Feed out
+            if isinstance(canned_gcode, (GCodeBoringCycleFeedOut, GCodeBoringCycleDwellFeedOut)):
+                yield GCodeLinearMove(Z=retract_depth)
 
             # Return
             yield GCodeRapidMove(Z=final_depth)
-- 
2.43.0


From 6609c59e578ac875cb245cae0a3672c9b45310f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:35 +0000
Subject: [PATCH 15/43] fix: linearize_arc without a method class uses the
 default

---
 src/pygcode/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 1b1f808..f4e76c5 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -232,7 +232,7 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     """
     # set defaults
     if method_class is None:
-        method_class = DEFAULT_LA_method_class
+        method_class = DEFAULT_LA_METHOD
     if plane is None:
         plane = DEFAULT_LA_PLANE()
     if dist_mode is None:
-- 
2.43.0


From 5edc3c37b32bccb564010d425b6397a1a23167d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:37 +0000
Subject: [PATCH 16/43] fix: GCodeArcMove.assert_params raises
 GCodeParameterError

---
 src/pygcode/gcodes.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index c587003..89c6555 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -432,17 +432,17 @@ class GCodeArcMove(GCodeMotion):
         # --- Parameter Groups
         # XYZ: at least 1
         if not params_xyz:
-            raise GCodeParameterError("no XYZ parameters set for destination: %r" % arc_gcode)
+            raise GCodeParameterError("no XYZ parameters set for destination: %r" % self)
         # IJK or R: only in 1 group
         if params_ijk and params_r:
-            raise GCodeParameterError("both IJK and R parameters defined: %r" % arc_gcode)
+            raise GCodeParameterError("both IJK and R parameters defined: %r" % self)
         # IJKR: at least 1
         if not params_ijkr:
-            raise GCodeParameterError("neither IJK or R parameters defined: %r" % arc_gcode)
+            raise GCodeParameterError("neither IJK or R parameters defined: %r" % self)
 
         # --- Parameter Values
         if params_r and (self.R == 0):
-            raise GCodeParameterError("cannot plot a circle with a radius of zero: %r" % arc_gcode)
+            raise GCodeParameterError("cannot plot a circle with a radius of zero: %r" % self)
 
 
 class GCodeArcMoveCW(GCodeArcMove):
-- 
2.43.0


From 17ab41a238e7683fba45030b88882c061665e867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:53:41 +0000
Subject: [PATCH 17/43] fix: half circles are not refused because of rounding
 errors

---
 src/pygcode/transform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index f4e76c5..7583c36 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -215,6 +215,7 @@ DEFAULT_LA_METHOD = ArcLinearizeMid
 DEFAULT_LA_PLANE = GCodeSelectXYPlane
 DEFAULT_LA_DISTMODE = GCodeAbsoluteDistanceMode
 DEFAULT_LA_ARCDISTMODE = GCodeIncrementalArcDistanceMode
+LA_TOLERANCE = 1e-6  # length considered to be zero (accommodates floating-point errors)
 
 def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
                   dist_mode=None, arc_dist_mode=None,
@@ -301,10 +302,10 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     # Find Circle's Center (given radius)
     arc_span = arc_p_end - arc_p_start  # vector spanning from start -> end
     arc_span_mid = arc_span * 0.5  # arc_span's midpoint
-    if arc_radius < abs(arc_span_mid):
+    if abs(arc_span_mid) - arc_radius > LA_TOLERANCE:  # (they're the same length for half a circle)
         raise GCodeParameterError("circle cannot reach endpoint at this radius: %r" % arc_gcode)
     # vector from arc_span midpoint -> circle's centre
-    radius_mid_vect = arc_span_mid.normalized().cross(plane.normal) * sqrt(arc_radius**2 - abs(arc_span_mid)**2)
+    radius_mid_vect = arc_span_mid.normalized().cross(plane.normal) * sqrt(max(0., arc_radius**2 - abs(arc_span_mid)**2))
 
     if 'R' in arc_gcode.params:
         # R: radius magnitude specified
-- 
2.43.0


From 1f92a218a5ffcd689bab1a4896e21e99d9f4ecb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:01 +0000
Subject: [PATCH 18/43] fix: short arcs given by radius are not refused

---
 src/pygcode/transform.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 7583c36..285470c 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -272,7 +272,7 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     arc_gcode.assert_params()
     if 'R' in arc_gcode.params:
         # R: radius magnitude specified
-        if abs(arc_p_start - arc_p_end) < max_error:
+        if abs(arc_p_start - arc_p_end) < LA_TOLERANCE:
             raise GCodeParameterError(
                 "arc starts and finishes in the same spot; cannot "
                 "speculate where circle's center is: %r" % arc_gcode
-- 
2.43.0


From 472e8edf2580dc44ec42954870232c84a547d102 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:04 +0000
Subject: [PATCH 19/43] fix: arcs in the ZX and YZ planes are linearized
 through the correct angle

---
 src/pygcode/transform.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 285470c..1da051c 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -326,8 +326,9 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
             arc_p_center = arc_p_center_options[1]
 
     # Arc's angle (first rotated back to xy plane)
-    xy_c2start = plane.quat * (arc_p_start - arc_p_center)
-    xy_c2end = plane.quat * (arc_p_end - arc_p_center)
+    quat_to_xy = plane.quat.conjugated()
+    xy_c2start = quat_to_xy * (arc_p_start - arc_p_center)
+    xy_c2end = quat_to_xy * (arc_p_end - arc_p_center)
     (a1, a2) = (atan2(*xy_c2start.yx), atan2(*xy_c2end.yx))
     if isinstance(arc_gcode, GCodeArcMoveCW):
         arc_angle = (a1 - a2) % (2 * pi)
-- 
2.43.0


From 43116b69c32035c7cdc5e4d485d0a1aff6f51960 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:06 +0000
Subject: [PATCH 20/43] fix: full circles are linearized; zero radius centre
 arcs are refused

---
 src/pygcode/transform.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index 1da051c..f021467 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -298,6 +298,8 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
 
         # average the 2 radii to get the most accurate radius
         arc_radius = (abs(r1) + abs(r2)) / 2.
+        if arc_radius < LA_TOLERANCE:
+            raise GCodeParameterError("cannot plot a circle with a radius of zero: %r" % arc_gcode)
 
     # Find Circle's Center (given radius)
     arc_span = arc_p_end - arc_p_start  # vector spanning from start -> end
@@ -307,7 +309,10 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     # vector from arc_span midpoint -> circle's centre
     radius_mid_vect = arc_span_mid.normalized().cross(plane.normal) * sqrt(max(0., arc_radius**2 - abs(arc_span_mid)**2))
 
-    if 'R' in arc_gcode.params:
+    is_full_circle = abs(arc_span) < LA_TOLERANCE
+    if is_full_circle:
+        pass  # arc_p_center is defined as per IJK params (R has been refused)
+    elif 'R' in arc_gcode.params:
         # R: radius magnitude specified
         if isinstance(arc_gcode, GCodeArcMoveCW) == (arc_gcode.R < 0):
             arc_p_center = arc_p_start + arc_span_mid - radius_mid_vect
@@ -330,7 +335,9 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     xy_c2start = quat_to_xy * (arc_p_start - arc_p_center)
     xy_c2end = quat_to_xy * (arc_p_end - arc_p_center)
     (a1, a2) = (atan2(*xy_c2start.yx), atan2(*xy_c2end.yx))
-    if isinstance(arc_gcode, GCodeArcMoveCW):
+    if is_full_circle:
+        arc_angle = 2 * pi if isinstance(arc_gcode, GCodeArcMoveCW) else -2 * pi
+    elif isinstance(arc_gcode, GCodeArcMoveCW):
         arc_angle = (a1 - a2) % (2 * pi)
     else:
         arc_angle = -((a2 - a1) % (2 * pi))
-- 
2.43.0


From 42a94cc2bf6c6b1c601dc68b91694a59d1ba7d3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:38 +0000
Subject: [PATCH 21/43] fix: pygcode-norm --singles keeps modal parameters and
 macros

---
 scripts/pygcode-norm | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/scripts/pygcode-norm b/scripts/pygcode-norm
index 8b721d9..eeac2d4 100755
--- a/scripts/pygcode-norm
+++ b/scripts/pygcode-norm
@@ -251,8 +251,12 @@ def write(gcodes, modal_params=tuple(), comment=None, macro=None):
     """
     assert not(args.full and modal_params), "with full specified, this should never be called with modal_params"
     if args.singles and len(gcodes) > 1:
-        for g in sorted(gcodes):
-            write([g], comment=comment)
+        for (i, g) in enumerate(sorted(gcodes)):
+            # comment & macro are only written once
+            if i == 0:
+                write([g], comment=comment, macro=macro)
+            else:
+                write([g])
     else:
         # remove comments
         if args.rm_comments:
@@ -350,7 +354,8 @@ for line_str in args.infile.readlines():
                 write([simplified_gcode])
 
     else:
-        if args.full:
+        if args.full or (args.singles and line.block.gcodes):
+            # note: with singles, modal params may share their line with other gcodes
             write(effective_gcodes, comment=line.comment, macro=line.macro)
         else:
             write(line.block.gcodes, modal_params=line.block.modal_params, comment=line.comment, macro=line.macro)
-- 
2.43.0


From db6a2f19dc08eab1b2675923e06d64f89d64ea7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:45 +0000
Subject: [PATCH 22/43] fix: pygcode-norm writes bare parameters where no code
 claims them

---
 scripts/pygcode-norm | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/scripts/pygcode-norm b/scripts/pygcode-norm
index eeac2d4..280b20d 100755
--- a/scripts/pygcode-norm
+++ b/scripts/pygcode-norm
@@ -15,7 +15,7 @@ for pygcode_lib_type in ('installed_lib', 'relative_lib'):
     try:
         # pygcode
         from pygcode import Word
-        from pygcode import Machine, Mode, Line
+        from pygcode import Machine, Mode, Line, Block
         from pygcode import GCodeArcMove, GCodeArcMoveCW, GCodeArcMoveCCW
         from pygcode import GCodeCannedCycle
         from pygcode import GCodeRapidMove, GCodeStopSpindle, GCodeAbsoluteDistanceMode
@@ -266,7 +266,10 @@ def write(gcodes, modal_params=tuple(), comment=None, macro=None):
             gcodes = [g for g in gcodes if g.word not in args.rm_gcodes]
 
         # Convert to string & write to file (or stdout)
-        block_str = ' '.join(str(x) for x in (list(gcodes) + list(modal_params)))
+        block = Block()
+        block.gcodes = list(gcodes)
+        block.modal_params = list(modal_params)
+        block_str = str(block)
         if args.rm_whitespace:
             block_str = re.sub(r'\s', '', block_str)
 
-- 
2.43.0


From 622f9acda6057a4fdb046e63fe91458b24f96b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:27 +0000
Subject: [PATCH 23/43] fix: pygcode-norm expands canned cycles with the active
 return mode

---
 scripts/pygcode-norm | 1 +
 1 file changed, 1 insertion(+)

diff --git a/scripts/pygcode-norm b/scripts/pygcode-norm
index 280b20d..1b517e4 100755
--- a/scripts/pygcode-norm
+++ b/scripts/pygcode-norm
@@ -351,6 +351,7 @@ for line_str in args.infile.readlines():
                 'start_pos': machine.pos,
                 'plane': machine.mode.plane_selection,
                 'dist_mode': machine.mode.distance,
+                'retract_mode': machine.mode.canned_cycles_return,
                 'axes': machine.axes,
             }
             for simplified_gcode in omit_redundant_modes(simplify_canned_cycle(**simplify_canned_params)):
-- 
2.43.0


From b4bb1f459a7004ae0cc2dbe7a74a913ee29e19a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:29 +0000
Subject: [PATCH 24/43] fix: pygcode-norm keeps the macro of an expanded line

---
 scripts/pygcode-norm | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/scripts/pygcode-norm b/scripts/pygcode-norm
index 1b517e4..fae640c 100755
--- a/scripts/pygcode-norm
+++ b/scripts/pygcode-norm
@@ -290,12 +290,13 @@ def gcodes2str(gcodes):
 
 
 @contextmanager
-def split_and_process(gcode_list, gcode_class, comment):
+def split_and_process(gcode_list, gcode_class, comment, macro=None):
     """
     Split gcodes by given class, yields given class instance
     :param gcode_list: list of GCode instances
     :param gcode_class: class inheriting from GCode (directly, or indirectly)
     :param comment: Comment instance, or None
+    :param macro: macro text, or None
     """
     (befores, (g,), afters) = split_gcodes(gcode_list, gcode_class)
     # write & process those before gcode_class instance
@@ -309,9 +310,9 @@ def split_and_process(gcode_list, gcode_class, comment):
     if afters:
         write(afters)
         machine.process_gcodes(*afters)
-    # write comment (if given)
-    if comment:
-        write([], comment=line.comment)
+    # write comment & macro (if given)
+    if comment or macro:
+        write([], comment=comment, macro=macro)
 
 
 
@@ -328,7 +329,7 @@ for line_str in args.infile.readlines():
     effective_gcodes = machine.block_modal_gcodes(line.block)
 
     if args.arc_linearize and any(isinstance(g, GCodeArcMove) for g in effective_gcodes):
-        with split_and_process(effective_gcodes, GCodeArcMove, line.comment) as arc:
+        with split_and_process(effective_gcodes, GCodeArcMove, line.comment, line.macro) as arc:
             write([], comment=Comment("linearized arc: %r" % arc))
             linearize_params = {
                 'arc_gcode': arc,
@@ -344,7 +345,7 @@ for line_str in args.infile.readlines():
                 write([linear_gcode])
 
     elif args.canned_expand and any((g.word in args.canned_codes) for g in effective_gcodes):
-        with split_and_process(effective_gcodes, GCodeCannedCycle, line.comment) as canned:
+        with split_and_process(effective_gcodes, GCodeCannedCycle, line.comment, line.macro) as canned:
             write([], comment=Comment("expanded: %r" % canned))
             simplify_canned_params = {
                 'canned_gcode': canned,
-- 
2.43.0


From ea4dab23551f56051cfb3faf645b1c41dfa191c3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:50 +0000
Subject: [PATCH 25/43] fix: pygcode-crop restores the motion and distance
 modes after positioning

---
 scripts/pygcode-crop | 21 +++++++++++++++++++--
 1 file changed, 19 insertions(+), 2 deletions(-)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index b5d1d66..3adaa2d 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -16,7 +16,8 @@ for pygcode_lib_type in ('installed_lib', 'relative_lib'):
         from pygcode import Machine, Mode
         from pygcode import Line, Comment
         from pygcode import GCodePlaneSelect, GCodeSelectXYPlane
-        from pygcode import GCodeRapidMove
+        from pygcode import GCodeRapidMove, GCodeCannedCycle
+        from pygcode import GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode
 
     except ImportError:
         import sys, os, inspect
@@ -207,7 +208,21 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             pre_crop = False
 
             # Set machine's accumulated mode (from everything that's been cut)
-            mode_str = str(old_machine.mode)
+            #   Positioning needs rapid & absolute movements, so motion and
+            #   incremental modes are set after it.
+            mode_gcodes = []
+            final_gcodes = []
+            for g in old_machine.mode.gcodes:
+                if isinstance(g, GCodeIncrementalDistanceMode):
+                    mode_gcodes.append(GCodeAbsoluteDistanceMode())
+                    final_gcodes.append(g)
+                elif isinstance(g, GCodeCannedCycle):
+                    pass  # can't be made active without being executed
+                elif g is old_machine.mode.motion:
+                    final_gcodes.append(g)
+                else:
+                    mode_gcodes.append(g)
+            mode_str = ' '.join(str(g) for g in mode_gcodes)
             if mode_str:
                 print(Comment("machine mode before cropping"))
                 print(mode_str)
@@ -232,6 +247,8 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             print(GCodeRapidMove(**{
                 plane.normal_axis: getattr(old_machine.pos, plane.normal_axis),
             }))
+            if final_gcodes:
+                print(' '.join(str(g) for g in final_gcodes))
             print('')
 
     if (pre_crop, post_crop) == (False, False):
-- 
2.43.0


From c1b9109c43207c83e535469ab960d699daee7393 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:51 +0000
Subject: [PATCH 26/43] fix: pygcode-crop gives its traverse height in work
 coordinates

---
 scripts/pygcode-crop | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index 3adaa2d..d39a0e2 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -236,7 +236,9 @@ for (i, line_str) in enumerate(args.infile.readlines()):
             print(Comment("traverse into position, up, over, and down"))
             # rapid move to Z (maximum Z the machine has experienced thus far)
             print(GCodeRapidMove(**{
-                plane.normal_axis: getattr(old_machine.abs_range_max, plane.normal_axis),
+                plane.normal_axis: getattr(
+                    old_machine.abs2work(old_machine.abs_range_max), plane.normal_axis
+                ),
             }))
             # rapid move to X,Y
             print(GCodeRapidMove(**dict(
-- 
2.43.0


From cf9dfcca16460f8c671daaaf9397a75ecf7d7805 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:05 +0000
Subject: [PATCH 27/43] fix: pygcode-crop knows the angular axes

---
 scripts/pygcode-crop | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index d39a0e2..4d8cd05 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -187,6 +187,7 @@ args = parser.parse_args()
 # --- Machine
 class NullMachine(Machine):
     MODE_CLASS = type('NullMode', (Mode,), {'default_mode': ''})
+    axes = set('ABCXYZ')
 
 machine = NullMachine()
 
@@ -240,10 +241,13 @@ for (i, line_str) in enumerate(args.infile.readlines()):
                     old_machine.abs2work(old_machine.abs_range_max), plane.normal_axis
                 ),
             }))
-            # rapid move to X,Y
+            # rapid move to X,Y (and angular axes, if they've been moved)
+            (range_min, range_max) = (old_machine.abs_range_min, old_machine.abs_range_max)
             print(GCodeRapidMove(**dict(
                 (k, v) for (k, v) in old_machine.pos.values.items()
-                if k in plane.plane_axes
+                if (k in plane.plane_axes) or (
+                    (k in 'ABC') and (getattr(range_min, k) != getattr(range_max, k))
+                )
             )))
             # rapid move to Z (machine.pos.Z)
             print(GCodeRapidMove(**{
-- 
2.43.0


From c55e21eb9f8fb0dda93a83b1f25ca0b93ab0f072 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:15:53 +0000
Subject: [PATCH 28/43] fix: copying a block, or deep copying a position or a
 machine, recursed without end

---
 src/pygcode/block.py   | 2 +-
 src/pygcode/machine.py | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/pygcode/block.py b/src/pygcode/block.py
index d119f5a..36b98a9 100644
--- a/src/pygcode/block.py
+++ b/src/pygcode/block.py
@@ -79,7 +79,7 @@ class Block(object):
                 modal_groups.add(gc.modal_group)
 
     def __getattr__(self, k):
-        if k in self._word_map:
+        if k in self.__dict__.get('_word_map', ()):  # not yet set while being copied
             for w in self.words:
                 if w.letter == k:
                     return w
diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index a98cd85..a1d79ad 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -63,7 +63,7 @@ class Position(object):
 
     # Attributes Get/Set
     def __getattr__(self, key):
-        if key in self.axes:
+        if key in self.__dict__.get('axes', ()):  # not yet set while being copied
             return self._value[key]
 
         raise AttributeError("'{cls}' object has no attribute '{key}'".format(
-- 
2.43.0


From 81aa00ee02560c0764a39b78d5c9a48dac337fab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:18 +0000
Subject: [PATCH 29/43] fix: canned cycles in the UVW planes changed the wrong
 axis or failed half way

---
 src/pygcode/gcodes.py | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 89c6555..924f0a0 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -548,9 +548,10 @@ class GCodeCannedCycle(GCode):
         normal_axis = plane.normal_axis if plane else 'Z'  # default: XY plane
         if isinstance(machine.mode.canned_cycles_return, GCodeCannedCycleReturnToR) and (self.R is not None):
             # canned return is to this.R, not this.Z (plane dependent)
-            moveto_coords.update({
-                normal_axis: self.R,
-            })
+            if normal_axis in machine.axes:
+                moveto_coords.update({
+                    normal_axis: self.R,
+                })
         else:  # default: GCodeCannedCycleReturnPrevLevel
             # Remove this.Z (plane dependent) value (ie: no machine movement on this axis)
             moveto_coords.pop(normal_axis, None)
@@ -923,16 +924,22 @@ class GCodeSelectYZPlane(GCodePlaneSelect):
 class GCodeSelectUVPlane(GCodePlaneSelect):
     """G17.1: select UV plane"""
     word_key = Word('G', 17.1)
+    normal_axis = 'W'
+    plane_axes = set('UV')
 
 
 class GCodeSelectWUPlane(GCodePlaneSelect):
     """G18.1: select WU plane"""
     word_key = Word('G', 18.1)
+    normal_axis = 'V'
+    plane_axes = set('WU')
 
 
 class GCodeSelectVWPlane(GCodePlaneSelect):
     """G19.1: select VW plane"""
     word_key = Word('G', 19.1)
+    normal_axis = 'U'
+    plane_axes = set('VW')
 
 
 # ======================= Cutter Radius Compensation =======================
-- 
2.43.0


From 38a4783d1adf9be76317ad12633081ccde4e273a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:18 +0000
Subject: [PATCH 30/43] fix: linearize_arc says that it does not support the
 UVW planes

---
 src/pygcode/transform.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index f021467..a7f6c24 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -250,6 +250,9 @@ def linearize_arc(arc_gcode, start_pos, plane=None, method_class=None,
     assert isinstance(arc_dist_mode, (GCodeAbsoluteArcDistanceMode, GCodeIncrementalArcDistanceMode)), "bad arc_dist_mode type: %r" % arc_dist_mode
     assert max_error > 0, "max_error must be > 0"
 
+    if plane.normal is None:  # UVW planes
+        raise NotImplementedError("linearizing arcs for planes other than X/Y, Z/X and Y/Z has not been implemented")
+
     # Arc Start
     arc_start = start_pos.vector
     # Arc End
-- 
2.43.0


From 4942d4f8808006204fe55b3f5cc0b4339bb28410 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:18 +0000
Subject: [PATCH 31/43] fix: pygcode-crop positions in a plane the machine has
 axes for

---
 scripts/pygcode-crop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index 4d8cd05..318f76d 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -230,7 +230,7 @@ for (i, line_str) in enumerate(args.infile.readlines()):
 
             # Getting machine's current (modal) selected plane
             plane = old_machine.mode.plane_selection
-            if not isinstance(plane, GCodePlaneSelect):
+            if (not isinstance(plane, GCodePlaneSelect)) or (plane.normal_axis not in old_machine.axes):
                 plane = GCodeSelectXYPlane()  # default to XY plane
 
             # --- position machine before first cropped line
-- 
2.43.0


From 0a9bdb0c43388cd08df137f7e74774d39a65000f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:18 +0000
Subject: [PATCH 32/43] fix: simplify_canned_cycle refuses threading cycles,
 and cycles without R or Z

---
 src/pygcode/transform.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/transform.py b/src/pygcode/transform.py
index a7f6c24..af65624 100644
--- a/src/pygcode/transform.py
+++ b/src/pygcode/transform.py
@@ -5,7 +5,7 @@ from .gcodes import GCodeArcMove, GCodeArcMoveCW, GCodeArcMoveCCW
 from .gcodes import GCodePlaneSelect, GCodeSelectXYPlane, GCodeSelectYZPlane, GCodeSelectZXPlane
 from .gcodes import GCodeAbsoluteDistanceMode, GCodeIncrementalDistanceMode
 from .gcodes import GCodeAbsoluteArcDistanceMode, GCodeIncrementalArcDistanceMode
-from .gcodes import GCodeCannedCycle
+from .gcodes import GCodeCannedCycle, GCodeThreadingCycle
 from .gcodes import GCodeDrillingCyclePeck, GCodeDrillingCycleDwell, GCodeDrillingCycleChipBreaking
 from .gcodes import GCodeBoringCycleFeedOut, GCodeBoringCycleDwellFeedOut
 from .gcodes import GCodeCannedReturnMode, GCodeCannedCycleReturnPrevLevel, GCodeCannedCycleReturnToR
@@ -426,6 +426,11 @@ def simplify_canned_cycle(canned_gcode, start_pos,
     if isinstance(canned_gcode, (GCodeDrillingCyclePeck, GCodeDrillingCycleChipBreaking)) and not canned_gcode.Q:
         raise GCodeParameterError("peck increment (Q) must be non-zero: %r" % canned_gcode)
 
+    if isinstance(canned_gcode, GCodeThreadingCycle):
+        raise NotImplementedError("simplifying threading cycles has not been implemented")
+    if (canned_gcode.R is None) or (canned_gcode.Z is None):
+        raise GCodeParameterError("canned cycle needs both an R and Z parameter: %r" % canned_gcode)
+
     # TODO: implement for planes other than XY
     if not isinstance(plane, GCodeSelectXYPlane):
         raise NotImplementedError("simplifying canned cycles for planes other than X/Y has not been implemented")
-- 
2.43.0


From 44ea433d201b8995c157d758b15cc390c223c4f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:36:18 +0000
Subject: [PATCH 33/43] fix: a machine's mode shared words with the codes it
 was given

---
 src/pygcode/gcodes.py  | 4 ++--
 src/pygcode/machine.py | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/pygcode/gcodes.py b/src/pygcode/gcodes.py
index 924f0a0..cc65d32 100644
--- a/src/pygcode/gcodes.py
+++ b/src/pygcode/gcodes.py
@@ -295,8 +295,8 @@ class GCode(object):
 
     def modal_copy(self):
         """Copy of GCode instance containing only parameters listed in modal_param_letters"""
-        return self.__class__(self.word, *[
-            w for (l, w) in self.params.items()
+        return self.__class__(copy(self.word), *[
+            copy(w) for (l, w) in self.params.items()
             if l in self.modal_param_letters
         ])
 
diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index a1d79ad..4e3410a 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -422,10 +422,10 @@ class Machine(object):
             (modal_gcodes, unasigned_words) = ([], modal_params)
             # forces exception to be raised in next step
         else:
-            params = copy(self.mode.motion.params)  # dict
+            params = dict((l, copy(w)) for (l, w) in self.mode.motion.params.items())
             params.update(dict((w.letter, w) for w in modal_params))  # override retained modal parameters
             (modal_gcodes, unasigned_words) = words2gcodes(
-                [self.mode.motion.word] + list(params.values())
+                [copy(self.mode.motion.word)] + list(params.values())
             )
 
         if unasigned_words and (not self.ignore_invalid_modal):
-- 
2.43.0


From 14b5faeeb4865783c1e0b8a23ebb916342077d16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:05 +0000
Subject: [PATCH 34/43] fix: a position refuses coordinates for axes it does
 not have

---
 src/pygcode/machine.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 4e3410a..3da31c9 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -51,6 +51,9 @@ class Position(object):
         self._unit = kwargs.pop('unit', self.default_unit)
 
         # Initial Values
+        undefined_axes = set(kwargs) - self.axes
+        if undefined_axes:
+            raise MachineInvalidAxis("axes %r are not defined to be set" % sorted(undefined_axes))
         self._value = defaultdict(lambda: 0.0, dict((k, 0.0) for k in self.axes))
         self._value.update(kwargs)
 
-- 
2.43.0


From 7592c6df5a5e43ad587dd1030744e36b77e48dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:09:08 +0000
Subject: [PATCH 35/43] fix: minimum and maximum of positions have the axes of
 the positions

---
 src/pygcode/machine.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 3da31c9..f120bcf 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -157,7 +157,7 @@ class Position(object):
             p2 = copy(p2)
             p2.unit = p1.unit
         return cls(
-            unit=p1.unit,
+            axes=p1.axes, unit=p1.unit,
             **dict(
                 (k, key(getattr(p1, k), getattr(p2, k))) for k in p1.values
             )
-- 
2.43.0


From e40855488302e5157b3a75af7dc01e09abdb1ad7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:10:58 +0000
Subject: [PATCH 36/43] fix: text of more than one line given to Line is
 refused with a format error

---
 src/pygcode/line.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/pygcode/line.py b/src/pygcode/line.py
index 5b777ca..43ee24f 100644
--- a/src/pygcode/line.py
+++ b/src/pygcode/line.py
@@ -2,6 +2,7 @@ import re
 
 from .comment import split_line
 from .block import Block
+from .exceptions import GCodeBlockFormatError
 
 class Line(object):
 
@@ -17,6 +18,8 @@ class Line(object):
 
         # Split line into block text, and comments
         if text is not None:
+            if '\n' in text.rstrip():
+                raise GCodeBlockFormatError("more than one line given: %r" % text)
             match = self.line_regex.search(text)
 
             block_and_comment = match.group('block_and_comment')
-- 
2.43.0


From d64763b24341ef02f505d37b69b9658fa6e15dff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:01 +0000
Subject: [PATCH 37/43] fix: bare parameters with a repeated letter are
 refused, as they are with their code

---
 src/pygcode/machine.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index f120bcf..5501904 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -425,10 +425,10 @@ class Machine(object):
             (modal_gcodes, unasigned_words) = ([], modal_params)
             # forces exception to be raised in next step
         else:
-            params = dict((l, copy(w)) for (l, w) in self.mode.motion.params.items())
-            params.update(dict((w.letter, w) for w in modal_params))  # override retained modal parameters
+            given_letters = set(w.letter for w in modal_params)  # override retained modal parameters
+            retained = [copy(w) for (l, w) in self.mode.motion.params.items() if l not in given_letters]
             (modal_gcodes, unasigned_words) = words2gcodes(
-                [copy(self.mode.motion.word)] + list(params.values())
+                [copy(self.mode.motion.word)] + retained + list(modal_params)
             )
 
         if unasigned_words and (not self.ignore_invalid_modal):
-- 
2.43.0


From a9812d535f7b5a0b4e8ed17f6f94ea691043f3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:11:03 +0000
Subject: [PATCH 38/43] fix: a copied machine ignores words its motion cannot
 take if the original does

---
 src/pygcode/machine.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/pygcode/machine.py b/src/pygcode/machine.py
index 5501904..273437d 100644
--- a/src/pygcode/machine.py
+++ b/src/pygcode/machine.py
@@ -401,6 +401,7 @@ class Machine(object):
         obj.abs_pos = copy(self.abs_pos)
         obj.abs_range_min = copy(self.abs_range_min)
         obj.abs_range_max = copy(self.abs_range_max)
+        obj.ignore_invalid_modal = self.ignore_invalid_modal
         return obj
 
     def set_mode(self, *gcode_list):
-- 
2.43.0


From 3dfaca137c50818ffb12f25942e0d6103c881581 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:10:27 +0000
Subject: [PATCH 39/43] fix: aligning parallel vectors could end with a math
 domain error

The cosine of two parallel vectors may be rounded to slightly more than 1, so
quat2align (and quat2coord_system) raised ValueError for frames off the axes.
---
 src/pygcode/utils.py | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/utils.py b/src/pygcode/utils.py
index 84df4cf..d68a844 100644
--- a/src/pygcode/utils.py
+++ b/src/pygcode/utils.py
@@ -1,4 +1,5 @@
 import sys
+from math import atan2
 from copy import copy, deepcopy
 
 from euclid3 import Vector3, Quaternion
@@ -27,6 +28,8 @@ def quat2align(to_align, with_this, normalize=True, half_turn_axis=None):
         with_this = with_this.normalized()
     # Calculate Quaternion
     axis = to_align.cross(with_this)
+    # (atan2: the cosine of parallel vectors may be rounded to more than 1)
+    angle = atan2(abs(axis), to_align.dot(with_this))
     if (to_align.dot(with_this) < 0) and (abs(axis) < 1e-9):
         # opposite vectors; their cross product gives no axis
         axis = half_turn_axis
@@ -34,7 +37,7 @@ def quat2align(to_align, with_this, normalize=True, half_turn_axis=None):
             not_parallel = Vector3(1., 0., 0.) if abs(to_align.x) < abs(to_align.y) else Vector3(0., 1., 0.)
             axis = to_align.cross(not_parallel)
     return Quaternion.new_rotate_axis(
-        angle=to_align.angle(with_this),
+        angle=angle,
         axis=axis,
     )
 
-- 
2.43.0


From 672c3cd6384d095e04f18afcad3057ae484be7ba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:59 +0000
Subject: [PATCH 40/43] fix: characters that only fold to a letter (kelvin
 sign, dotted I) ended reading with a KeyError

---
 src/pygcode/words.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/words.py b/src/pygcode/words.py
index 0a12bfe..1f7b4c0 100644
--- a/src/pygcode/words.py
+++ b/src/pygcode/words.py
@@ -97,7 +97,9 @@ def text2words(block_text, dialect=None):
         dialect = dialects.get_default()
     word_map = getattr(getattr(dialects, dialect), 'WORD_MAP')
 
-    next_word = re.compile(r'^.*?(?P<letter>[%s])' % ''.join(word_map.keys()), re.IGNORECASE)
+    letters = ''.join(word_map.keys())
+    # note: IGNORECASE would accept characters that are no letter of any word, eg: the kelvin sign
+    next_word = re.compile(r'^.*?(?P<letter>[%s])' % (letters + letters.lower()))
 
     index = 0
     while True:
-- 
2.43.0


From e5672462364487ecb5a430b6de82905df0f2ea94 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:59 +0000
Subject: [PATCH 41/43] fix: pygcode-norm accepted upper case arc methods and
 then ended with a KeyError

---
 scripts/pygcode-norm | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pygcode-norm b/scripts/pygcode-norm
index fae640c..1bd56b5 100755
--- a/scripts/pygcode-norm
+++ b/scripts/pygcode-norm
@@ -52,7 +52,7 @@ def arc_lin_method_type(value):
 
     value_dict = defaultdict(lambda: ArcLinearizeMid)
     if value:
-        match = re.search(r'^(?P<g2>[iom])(,(?P<g3>[iom]))?$', value, re.IGNORECASE)
+        match = re.search(r'^(?P<g2>[iom])(,(?P<g3>[iom]))?$', value.lower())
         if not match:
             raise argparse.ArgumentTypeError("invalid format '%s'" % value)
 
-- 
2.43.0


From 81cc09b2b2c8d818d159b6266ed99c1a675a0bf9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:53:59 +0000
Subject: [PATCH 42/43] fix: pygcode-crop took a condition of several lines for
 the one line of it that is one

---
 scripts/pygcode-crop | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/scripts/pygcode-crop b/scripts/pygcode-crop
index 318f76d..c9fca8c 100755
--- a/scripts/pygcode-crop
+++ b/scripts/pygcode-crop
@@ -85,7 +85,7 @@ def range_type(value):
                 )?\s* # parameter & comparison defaults to "n="
                 (?P<value>-?\d+(\.\d+)?)\s*
             $''',
-            cmp_str, re.IGNORECASE | re.MULTILINE | re.VERBOSE
+            cmp_str, re.IGNORECASE | re.VERBOSE
         )
         if not m:
             raise argparse.ArgumentTypeError("'%s' range comparison invalid" % cmp_str)
-- 
2.43.0


From fd76fe75a13842dedf79d36aad3b62cdec358132 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:29:19 +0000
Subject: [PATCH 43/43] fix: numbers too long for a float were read as
 infinity, and too long for an integer ended with a ValueError

---
 src/pygcode/words.py | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/pygcode/words.py b/src/pygcode/words.py
index 1f7b4c0..d5aa46c 100644
--- a/src/pygcode/words.py
+++ b/src/pygcode/words.py
@@ -1,6 +1,7 @@
 import re
 import itertools
 import six
+from math import isinf
 
 from . import dialects
 from .exceptions import GCodeBlockFormatError, GCodeWordStrError
@@ -116,7 +117,13 @@ def text2words(block_text, dialect=None):
                 raise GCodeWordStrError("word '%s' value invalid" % letter)
             value = value_match.group().lstrip() # matched text
 
-            yield Word(letter, value)
+            try:
+                word = Word(letter, value)
+            except ValueError:  # eg: more digits than can be converted
+                raise GCodeWordStrError("word '%s' value out of range" % letter)
+            if isinstance(word.value, float) and isinf(word.value):
+                raise GCodeWordStrError("word '%s' value out of range" % letter)
+            yield word
 
             index += value_match.end() # propogate index to end of value
         else:
-- 
2.43.0

