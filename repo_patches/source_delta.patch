From 79cf9cb89b19ea10c9d48d688c31170c00db93bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 01/38] fix: VectorRelative.p used coordinates that difference
 vectors do not have

---
 x7/geom/geom.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/geom.py b/x7/geom/geom.py
index 6f207c9..9777364 100644
--- a/x7/geom/geom.py
+++ b/x7/geom/geom.py
@@ -119,7 +119,7 @@ class Vector(typing.SupportsRound):
 
     @property
     def p(self):
-        return Point(self._x, self._y)
+        return Point(*self.xy())
 
     def set(self, v: 'Vector') -> None:
         self._x, self._y = v.xy()
-- 
2.43.0


From 640ef667b6fd7972a1f30b55d20f0a7a289f22b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:41:50 +0000
Subject: [PATCH 02/38] fix: rotate_about left a stale cached inverse behind

---
 x7/geom/transform.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x7/geom/transform.py b/x7/geom/transform.py
index ad38108..32379e3 100644
--- a/x7/geom/transform.py
+++ b/x7/geom/transform.py
@@ -236,6 +236,7 @@ class Transform(Transformer):
         # return self.compose(Transform().translate(*-center).rotate(angle).translate(*center))
         xform = Transform().translate(*-center).rotate(angle).translate(*center)
         self._mat.pre_dot_eq(xform._mat.ndmat)
+        self._inverse = None
         return self
 
     def compose(self, transmat: Union['Transform', Matrix]):
-- 
2.43.0


From 428e284cc24299d154cb43d7b66e10287f2884ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:02:57 +0000
Subject: [PATCH 03/38] fix: non-linear transform of a smooth control point
 with coinciding handles divided by zero

---
 x7/geom/bezier.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index bdc2aac..9d29242 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -85,8 +85,9 @@ class ControlPoint(object):
                 cp.dr = (cp.dr - cp.dl) / 2
                 cp.dl = -cp.dr
             elif cp.kind == 'smooth':
-                if cp.dl or cp.dr:
-                    direction = (cp.dr - cp.dl).unit()
+                direction = cp.dr - cp.dl
+                if direction:
+                    direction = direction.unit()
                     cp.dr = cp.dr.length() * direction
                     cp.dl = -cp.dl.length() * direction
         return cp
-- 
2.43.0


From 48a8a110413a4189beae7662f0a113a78804f196 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:26 +0000
Subject: [PATCH 04/38] fix: add_one split a segment that open curves do not
 draw and reset kinds of neighbouring control points

---
 x7/geom/model.py | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 6fea783..ad722e9 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -492,14 +492,17 @@ class ElemCurve(Elem):
         # Figure out where
         orig_len = len(self.control_points)
         cps = self.control_points
-        dists = [((a.c-b.c).length(), idx) for idx, (a, b) in enumerate(iter_rotate(cps, 2))]
+        # An open curve has no segment from its last control point back to its first one
+        segments = iter_rotate(cps, 2, cycle=self.closed or orig_len == 1)
+        dists = [((a.c-b.c).length(), idx) for idx, (a, b) in enumerate(segments)]
         dists = sorted(dists)
         left = (dists[-1][1]) % len(cps)
         right = (left + 1) % len(cps)
         # print('add_one: left=%d right=%d len=%d' % (left, right, len(cps)))
         l, m, r = bez_split(cps[left], cps[right])
-        cps[left].restore(l)
-        cps[right].restore(r)
+        # Only the two handles of the split segment change
+        cps[left].dr = l.dr
+        cps[right].dl = r.dl
         cps.insert(right, m)
         assert orig_len + 1 == len(self.control_points)
 
-- 
2.43.0


From 843e58760fd8a3e7cac4ec635b76434f84df4afb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:20:49 +0000
Subject: [PATCH 05/38] fix: copying or transforming a group lost its closed
 flag

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index ad722e9..cf7f517 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -897,7 +897,7 @@ class Group(Elem):
     def copy(self):
         elems = dict(self.elems)
         points = dict(self.points)
-        return Group(self.name, self.penbrush, self.hidden, self.xform.copy(), elems, points)
+        return Group(self.name, self.penbrush, self.hidden, self.xform.copy(), elems, points, self.closed)
 
     def restore(self, other: 'Group'):
         self.name = other.name
@@ -909,7 +909,7 @@ class Group(Elem):
 
     def transform(self, matrix: Transform):
         xform = matrix.copy().compose(self.xform)
-        return Group(self.name, self.penbrush, self.hidden, xform, dict(self.elems), dict(self.points))
+        return Group(self.name, self.penbrush, self.hidden, xform, dict(self.elems), dict(self.points), self.closed)
 
     def add(self, name, elem, fixname=False):
         if fixname and '.' in name or name in self.elems:
-- 
2.43.0


From e2d7c0028cc61dfe020d8e9a4db34b1cd1503100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:24:21 +0000
Subject: [PATCH 06/38] fix: bounding box of a shape with holes ignored the
 transform of its outside and failed without holes

---
 x7/geom/model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index cf7f517..63b1fc5 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1094,9 +1094,9 @@ class ElemWithHoles(Elem):
         return [c.transform(self.xform) for e in all_elems for c in e.as_curves()]
 
     def bbox_int(self) -> BBox:
-        bbox_outside = self.outside.bbox_int()
+        bbox_outside = self.outside.bbox()
         debug = True
-        if debug:
+        if debug and self.inside:
             bbox_inside = BBox(None)
             for elem in self.inside:
                 bbox_inside = bbox_inside + elem.bbox()
-- 
2.43.0


From 5b9a3b325657ef41e1e371a8007b9b4989ec7f58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:25:27 +0000
Subject: [PATCH 07/38] fix: Group.iter_elems left its transform pushed when
 iteration failed or was abandoned

---
 x7/geom/model.py | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 63b1fc5..58f8602 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -953,13 +953,11 @@ class Group(Elem):
     def iter_elems(self, root=None, matrix=None) -> Iterator[Tuple[str, Elem, Transform]]:
         """Deep iteration, return raw elements with name & transform"""
         matrix = matrix or Transform()
-        if self.xform:
-            matrix.push()
-            matrix.compose(self.xform)
-        for elem in self.elems.values():
-            yield from elem.iter_elems(root + '.' + self.name if root else self.name, matrix)
-        if self.xform:
-            matrix.pop()
+        with matrix.push():
+            if self.xform:
+                matrix.compose(self.xform)
+            for elem in self.elems.values():
+                yield from elem.iter_elems(root + '.' + self.name if root else self.name, matrix)
 
     def iter_elems_transformed(self, root=None, matrix=None) -> List[Elem]:
         """Shallow iteration, return transformed elements"""
-- 
2.43.0


From aad10d803375820dea9964ca22b011d4484e7aaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:05 +0000
Subject: [PATCH 08/38] fix: copies of curves and two-corner elements get their
 own transform

---
 x7/geom/model.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 58f8602..333d041 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -377,7 +377,7 @@ class ElemCurve(Elem):
     def fixed(self):
         """Return copy with all points 'fixed'"""
         cps = [cp.fixed() for cp in self.control_points]
-        return ElemCurve(self.name, self.penbrush, cps, self.closed, self.xform)
+        return ElemCurve(self.name, self.penbrush, cps, self.closed, self.xform.copy())
 
     def copy(self):
         """Return deep copy of self"""
@@ -583,7 +583,7 @@ class ElemP1P2(Elem, ABC):
         """Return copy of self"""
         p1 = self.p1.copy()
         p2 = self.p2.copy()
-        return type(self)(self.name, self.penbrush, p1, p2, self.closed, xform=self.xform)
+        return type(self)(self.name, self.penbrush, p1, p2, self.closed, xform=self.xform.copy())
 
     def restore(self, other: 'ElemP1P2'):
         """Restore self from copy in other"""
@@ -749,7 +749,7 @@ class ElemRectangleRounded(ElemP1P2):
         """Return deep copy of self"""
         p1 = self.p1.copy()
         p2 = self.p2.copy()
-        return ElemRectangleRounded(self.name, self.penbrush, p1, p2, self.radius, self.closed, xform=self.xform)
+        return ElemRectangleRounded(self.name, self.penbrush, p1, p2, self.radius, self.closed, xform=self.xform.copy())
 
     def restore(self, other: 'ElemRectangleRounded'):
         """Restore self from copy in other"""
-- 
2.43.0


From ab63b26328880afead3ef6255f348b81dddaa116 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:10 +0000
Subject: [PATCH 09/38] fix: restoring a group or shape with holes does not
 share the transform and restores closed

---
 x7/geom/model.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 333d041..902d5b1 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -902,8 +902,9 @@ class Group(Elem):
     def restore(self, other: 'Group'):
         self.name = other.name
         self.penbrush = other.penbrush
+        self.closed = other.closed
         self.hidden = other.hidden
-        self.xform = other.xform
+        self.xform = other.xform.copy()
         self.elems = dict(other.elems)
         self.points = dict(other.points)
 
@@ -1113,7 +1114,7 @@ class ElemWithHoles(Elem):
         self.name = other.name
         self.penbrush = other.penbrush
         self.closed = other.closed
-        self.xform = other.xform
+        self.xform = other.xform.copy()
         self.outside = other.outside.copy()
         self.inside = [e.copy() for e in self.inside]
 
-- 
2.43.0


From 5c95c081b4a871438f08a538e9ea4ea940cc3726 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:15 +0000
Subject: [PATCH 10/38] fix: ElemWithHoles.restore restores the holes

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 902d5b1..d779982 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1116,7 +1116,7 @@ class ElemWithHoles(Elem):
         self.closed = other.closed
         self.xform = other.xform.copy()
         self.outside = other.outside.copy()
-        self.inside = [e.copy() for e in self.inside]
+        self.inside = [e.copy() for e in other.inside]
 
     def transform(self, matrix: Transform):
         xform = matrix.copy().compose(self.xform)
-- 
2.43.0


From c9c203b26316c1e46c211b467d4877c812bd99c2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:55 +0000
Subject: [PATCH 11/38] fix: dump of a shape with holes can be evaluated

---
 x7/geom/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index d779982..7b442ee 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1137,12 +1137,15 @@ class ElemWithHoles(Elem):
 
     def dump(self, context: Optional[DumpContext] = None) -> DumpContext:
         context = context or DumpContext()
-        self.dump_elem(context, outside=self.outside, inside=list)
+        self.dump_elem(context, inside=list)
         with context:
             for elem in self.inside:
                 elem.dump(context)
                 context.add_comma()
-        context.append('])')
+        context.append('], outside=(')
+        with context:
+            self.outside.dump(context)
+        context.append('))')
         return context
 
     def iter_elems(self, root=None, matrix=None) -> Iterator[Tuple[str, Elem, Transform]]:
-- 
2.43.0


From 0ed536820500dca1a604c2c79dc38ebc4621617d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:31:58 +0000
Subject: [PATCH 12/38] fix: dump of a group includes its hidden flag and named
 points

---
 x7/geom/model.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 7b442ee..2c2ef41 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -943,7 +943,12 @@ class Group(Elem):
 
     def dump(self, context: Optional[DumpContext] = None) -> DumpContext:
         context = context or DumpContext()
-        self.dump_elem(context, elems=list)
+        extra = {}
+        if self.hidden:
+            extra['hidden'] = self.hidden
+        if self.points:
+            extra['points'] = self.points
+        self.dump_elem(context, **extra, elems=list)
         with context:
             for name, elem in sorted(self.elems.items()):
                 elem.dump(context)
-- 
2.43.0


From e0383050e28e83abfa805abd53baddc399f95307 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:38:44 +0000
Subject: [PATCH 13/38] fix: limiting the offset at a sharp corner keeps the
 side

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 2c2ef41..d1dfc1c 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -433,7 +433,7 @@ class ElemCurve(Elem):
             if abs(scale) > cls.OFFSET_PT_LIMIT:
                 if cls.OFFSET_PT_DEBUG:
                     print('offset_pt: Limited %.4f to %f' % (scale, cls.OFFSET_PT_LIMIT))
-                scale = cls.OFFSET_PT_LIMIT
+                scale = math.copysign(cls.OFFSET_PT_LIMIT, scale)
                 # TODO-introduce an arc at this point for outside edge
             v_offset = v_offset * scale
         return pt + v_offset
-- 
2.43.0


From 07eefaddfb1734d38e0b4085d9c5126abc4f34f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:12 +0000
Subject: [PATCH 14/38] fix: a refused replacement does not drop the element
 from its group

---
 x7/geom/model.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index d1dfc1c..3d453d6 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -997,10 +997,12 @@ class Group(Elem):
         for name, e in list(self.elems.items()):
             if e == elem:
                 print('Replacing %s with %s: %s' % (name, replacement.name, ','.join(self.elems.keys())))
-                del self.elems[name]
-                if replacement.name in self.elems:
+                if replacement.name != name and replacement.name in self.elems:
                     raise ValueError("Cannot replace %r into Group(%r) because it already exists" % (
                         replacement.name, self.name))
+                if '.' in replacement.name:
+                    raise ValueError('name may not contain ".": %r' % replacement.name)
+                del self.elems[name]
                 self.add(replacement.name, replacement)
                 count += 1
             elif hasattr(e, 'replace'):
-- 
2.43.0


From 93674cd9dd200b2024ebe612051d28b5cfeb065a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:44:16 +0000
Subject: [PATCH 15/38] fix: replacing an element of a group keeps the drawing
 order

---
 x7/geom/model.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 3d453d6..11bc9a9 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1002,8 +1002,11 @@ class Group(Elem):
                         replacement.name, self.name))
                 if '.' in replacement.name:
                     raise ValueError('name may not contain ".": %r' % replacement.name)
-                del self.elems[name]
-                self.add(replacement.name, replacement)
+                # Keep the position (drawing order) of the replaced element
+                self.elems = {
+                    (replacement.name if n == name else n): (replacement if n == name else old)
+                    for n, old in self.elems.items()
+                }
                 count += 1
             elif hasattr(e, 'replace'):
                 count += e.replace(elem, replacement)
-- 
2.43.0


From 40e2d927ebf2699d9e7f7e1f3eac10a6f444903a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:45:40 +0000
Subject: [PATCH 16/38] fix: replace inside shapes with holes instead of
 raising NotImplementedError

---
 x7/geom/model.py | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 11bc9a9..2df8eeb 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1194,8 +1194,18 @@ class ElemWithHoles(Elem):
 
     def replace(self, elem: Elem, replacement):
         """Replace this elem throughout the model.  Return count of replacements"""
-        unused(elem, replacement)
-        raise NotImplementedError
+
+        count = 0
+        members = [self.outside] + self.inside
+        for idx, e in enumerate(members):
+            if e == elem:
+                replacement.penbrush = self.penbrush
+                members[idx] = replacement
+                count += 1
+            elif hasattr(e, 'replace'):
+                count += e.replace(elem, replacement)
+        self.outside, self.inside = members[0], members[1:]
+        return count
 
 
 class GroupBuilder(object):
-- 
2.43.0


From a5b14f46aa32153b2b7ef36c31056d037aeaf5fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:07 +0000
Subject: [PATCH 17/38] fix: names from ElemWithHoles.iter_elems have no empty
 part

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 2df8eeb..dfd5dfb 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1162,7 +1162,7 @@ class ElemWithHoles(Elem):
         """Deep iteration, return raw elements with name & transform"""
         matrix = matrix or Transform()
         with matrix.push().compose(self.xform):
-            base = '%s.%s.' % (root, self.name) if root else self.name
+            base = '%s.%s' % (root, self.name) if root else self.name
             yield from self.outside.iter_elems(base + '.outside', matrix)
             for elem in self.inside:
                 yield from elem.iter_elems(base + '.inside', matrix)
-- 
2.43.0


From 79e0c1faaaa3d05b05642b7b784d52aa1d61b079 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:47:10 +0000
Subject: [PATCH 18/38] fix: transforms from iter_elems keep their value after
 the iteration moves on

---
 x7/geom/model.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index dfd5dfb..2a31d10 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -344,7 +344,8 @@ class Elem(ABC):
 
     def iter_elems(self, root='unknown', matrix=None):
         """Iterate over all elements (which is just this element)"""
-        yield root + '.' + self.name, self, matrix
+        # The matrix is changed while iterating, so hand out its current value
+        yield root + '.' + self.name, self, matrix.copy() if matrix else matrix
 
     @abstractmethod
     def as_digi_points(self):
-- 
2.43.0


From 8887aac27e31ce4ad309bf971bed0400cfbe809e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:48:53 +0000
Subject: [PATCH 19/38] fix: a hole that draws several paths contributes each
 of them once

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 2a31d10..750c812 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1078,8 +1078,8 @@ class ElemWithHoles(Elem):
                     paths = elem.paths(dc)
                     for path in paths:
                         path.penbrush = edge_brush
-                        edges.extend(paths)     # BUG? TODO - why extend with paths multiple times in this loop?
                         fill_path.extend(path.points, closed=True)
+                    edges.extend(paths)
                 return [fill_path] + edges
             else:
                 for elem in self.inside:
-- 
2.43.0


From b7ef4db6deec0e79f4696882bd9eef61419194ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:52:44 +0000
Subject: [PATCH 20/38] fix: offset of periodic timing functions is added to
 the angle, not to the frequency

---
 x7/geom/anim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 6d14bdb..f556ac4 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -126,7 +126,7 @@ class Animation(object):
         offset = radians(offset)
 
         def func(t):
-            t *= tau * frequency + offset
+            t = t * tau * frequency + offset
             return trig_func(t) * scale + shift
 
         return func
@@ -148,7 +148,7 @@ class Animation(object):
         offset = radians(offset)
 
         def func(t):
-            t *= tau * frequency + offset
+            t = t * tau * frequency + offset
             return sin(t) * scale + shift, cos(t) * scale + shift
 
         return func
-- 
2.43.0


From c390ebba6d7fa79876e7cb5c5416f66d536f5088 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:55:36 +0000
Subject: [PATCH 21/38] fix: multi-step morphing keeps the start of open curves

---
 x7/geom/anim.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index f556ac4..84f0c6b 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -356,8 +356,8 @@ class MorphMultiStep(Animation):
             while len(c.control_points) < max_len:
                 c.add_one()
             # TODO-make sure points are CCW
-            # Rotate the so that lower left is 0
-            rotate = force
+            # Rotate the so that lower left is 0 (an open curve has to start where it starts)
+            rotate = force and c.closed
             if rotate:
                 bbox = c.bbox()
                 dists = sorted([((bbox.p1-cp.c).length(), idx) for idx, cp in enumerate(c.control_points)])
-- 
2.43.0


From 9838a1f55c4c9be692b64e12f4ac99a25d3b70cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:11 +0000
Subject: [PATCH 22/38] fix: SimpleAnimation.animate stores each frame once

---
 x7/geom/anim_simple.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/x7/geom/anim_simple.py b/x7/geom/anim_simple.py
index b87f976..72ba914 100644
--- a/x7/geom/anim_simple.py
+++ b/x7/geom/anim_simple.py
@@ -85,9 +85,6 @@ class SimpleAnimation(object):
             with self.next_step() as dc:
                 step_t = self.t_low + step * step_size
                 self.draw_func(dc, step_t)
-            if self.show_steps:
-                dc.show()
-            self.images.append(dc.image())
 
     def save_animation(self, output):
         if not output:
-- 
2.43.0


From 1a75872ca75d63ab33448f4d604fad1979cb3194 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:08:15 +0000
Subject: [PATCH 23/38] fix: SimpleAnimation shows drawing boxes that are not
 centred vertically

---
 x7/geom/anim_simple.py | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/x7/geom/anim_simple.py b/x7/geom/anim_simple.py
index 72ba914..6b57a4d 100644
--- a/x7/geom/anim_simple.py
+++ b/x7/geom/anim_simple.py
@@ -67,8 +67,10 @@ class SimpleAnimation(object):
         """Create images, call draw_func for each step"""
 
         this_image = Image.new('RGBA', self.image_size.xy(), self.background)
-        xf = Transform.canvas_fit(self.image_size.xy(), zoom=1.0, zero_zero=(0, self.image_size.y))
-        xf.scale_bbox(self.model_bbox, BBox(0, 0, *self.image_size))
+        # Image coordinates are (right, down), so flip the drawing box along with the drawing
+        bb = self.model_bbox
+        xf = Transform().scale(1, -1)
+        xf.scale_bbox(BBox(bb.xl, -bb.yh, bb.xh, -bb.yl), BBox(0, 0, *self.image_size))
         dc = DrawingContext(this_image, xf)
         return StepContext(self, dc)
 
-- 
2.43.0


From 74689b439faeb596d9202b3fcff2ff934c1f137b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:41:43 +0000
Subject: [PATCH 24/38] fix: transforming lists of points through a vector
 field

---
 x7/geom/transform.py | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x7/geom/transform.py b/x7/geom/transform.py
index 32379e3..008e1cb 100644
--- a/x7/geom/transform.py
+++ b/x7/geom/transform.py
@@ -108,11 +108,11 @@ class Transformer(ABC):
         """
         np_pts = self.transform_np_pts(self.points_to_np_points(pts))
         if flatten:
-            return [v for x, y, z in np_pts for v in (x, y)]
+            return [v for x, y, *_ in np_pts for v in (x, y)]
         elif isinstance(pts[0], BasePoint):
-            return [Point(x, y) for x, y, z in np_pts]
+            return [Point(x, y) for x, y, *_ in np_pts]
         else:
-            return [(x, y) for x, y, z in np_pts]
+            return [(x, y) for x, y, *_ in np_pts]
 
 
 class Transform(Transformer):
-- 
2.43.0


From ac575390c9f378aa23fd972f4eefe77d28cbf1f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:44 +0000
Subject: [PATCH 25/38] fix: ControlPoint matcher passed delta as message

---
 x7/geom/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/testing.py b/x7/geom/testing.py
index e25be20..5516aaa 100644
--- a/x7/geom/testing.py
+++ b/x7/geom/testing.py
@@ -99,7 +99,7 @@ class ExtendedMatcherControlPoint(extended.ExtendedMatcher):
         vals_f = [getattr(first, attr) for attr in self.ATTRS]
         vals_s = [getattr(second, attr) for attr in self.ATTRS]
         # TODO-not quite right.  It should understand what was different by attr name
-        return self.test_case.almostEqual(vals_f, vals_s, places, delta)
+        return self.test_case.almostEqual(vals_f, vals_s, places, delta=delta)
 
     def explain_mismatch(self, new_data, old_data) -> extended.ExplainReturn:
         vals_n = [getattr(new_data, attr) for attr in self.ATTRS]
-- 
2.43.0


From d6f88b08b5a7215ca58451debb440215b0cef636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:46 +0000
Subject: [PATCH 26/38] fix: point and vector matchers ignored places and delta

---
 x7/geom/testing.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/testing.py b/x7/geom/testing.py
index 5516aaa..673c352 100644
--- a/x7/geom/testing.py
+++ b/x7/geom/testing.py
@@ -117,8 +117,8 @@ class ExtendedMatcherGeomXY(extended.ExtendedMatcher):
         super().__init__(test_case, self.KLASS)
 
     def almost_equal(self, first, second, places=None, delta=None) -> Union[bool, str]:
-        almost_x = self.test_case.almostEqualFloat(first.x, second.x)
-        almost_y = self.test_case.almostEqualFloat(first.y, second.y)
+        almost_x = self.test_case.almostEqualFloat(first.x, second.x, places, delta)
+        almost_y = self.test_case.almostEqualFloat(first.y, second.y, places, delta)
         msg = []
         if almost_x is not True:
             msg.append('x: ' + almost_x)
-- 
2.43.0


From 975732585f3fdc247192c92ece81ffea21b42ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:43:49 +0000
Subject: [PATCH 27/38] fix: explaining a ControlPoint mismatch compared kinds
 by distance

---
 x7/geom/testing.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/testing.py b/x7/geom/testing.py
index 673c352..5a4d887 100644
--- a/x7/geom/testing.py
+++ b/x7/geom/testing.py
@@ -104,7 +104,7 @@ class ExtendedMatcherControlPoint(extended.ExtendedMatcher):
     def explain_mismatch(self, new_data, old_data) -> extended.ExplainReturn:
         vals_n = [getattr(new_data, attr) for attr in self.ATTRS]
         vals_o = [getattr(old_data, attr) for attr in self.ATTRS]
-        if all(n.close(o) for n, o in zip(vals_n, vals_o)):
+        if all(n == o if isinstance(n, str) else n.close(o) for n, o in zip(vals_n, vals_o)):
             return True, None
         return False, None
 
-- 
2.43.0


From 04b4994b61df6e4011dd5b5211b21ba920725be7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:47:01 +0000
Subject: [PATCH 28/38] fix: GroupBuilder.hide hides the group it builds

---
 x7/geom/model.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 750c812..ca402c4 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -1332,6 +1332,7 @@ class GroupBuilder(object):
 
     def hide(self):
         self.hidden = True
+        self.the_group.hidden = True
 
     def draw(self, draw: DrawingContext):
         self.the_group.draw(draw)
-- 
2.43.0


From d4a307dab8bfc2a12c82673b234bafa4d6c67d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:48:18 +0000
Subject: [PATCH 29/38] fix: crop animations that have frames with nothing
 visible

---
 x7/geom/anim.py    | 2 +-
 x7/geom/drawing.py | 3 +++
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/x7/geom/anim.py b/x7/geom/anim.py
index 84f0c6b..5d9fafd 100644
--- a/x7/geom/anim.py
+++ b/x7/geom/anim.py
@@ -544,7 +544,7 @@ class Builder(object):
             images = self.images
         if autocrop:
             xs, ys = images[0].size
-            bb = self.max_bbox(images)
+            bb = self.max_bbox(images) or (0, 0, xs, ys)
             xl, yl, xh, yh = bb
             radius = 16
             bb = (max(0, xl - radius), max(0, yl - radius), min(xs, xh + radius), min(ys, yh + radius))
diff --git a/x7/geom/drawing.py b/x7/geom/drawing.py
index 4724383..1875ffb 100644
--- a/x7/geom/drawing.py
+++ b/x7/geom/drawing.py
@@ -6,6 +6,9 @@ from .transform import Transform
 
 
 def bbox_max(bbox_a, bbox_b):
+    # An image with nothing visible in it has no bounding box
+    if bbox_a is None or bbox_b is None:
+        return bbox_b if bbox_a is None else bbox_a
     compare = (min, min, max, max)
     return tuple(compare(a, b) for compare, a, b in zip(compare, bbox_a, bbox_b))
 
-- 
2.43.0


From 6a72c2e5d737ed87fc3795d7270c9db2764f77f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:08:38 +0000
Subject: [PATCH 30/38] fix: do not modify the control points of a
 self-crossing curve while breaking it up

---
 x7/geom/bezier.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/x7/geom/bezier.py b/x7/geom/bezier.py
index 9d29242..60aea31 100644
--- a/x7/geom/bezier.py
+++ b/x7/geom/bezier.py
@@ -349,6 +349,9 @@ class CpBool(object):
 def bez_self_intersect(orig_cps: List[ControlPoint], debug=False) -> List[List[ControlPoint]]:  # noqa: C901 (complexity)
     """Return list of replacement curves or [] if no self intersections"""
 
+    # The control points are modified below, so leave the original ones alone
+    orig_cps = [cp.copy() for cp in orig_cps]
+
     # all_curves: list of all curve segments and their intersection t-values/xy-values
     all_curves: List[Tuple[ControlPoint, ControlPoint, List[Tuple[float, Tuple[float, float]]]]] = []
     for cpa, cpb in iter_rotate(orig_cps):
-- 
2.43.0


From 48bb999dfb98fc26105d2109786d4a9fa23666a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:46:42 +0000
Subject: [PATCH 31/38] fix: scale_bbox from a box without width or height no
 longer leaves the transform half updated

---
 x7/geom/transform.py | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/x7/geom/transform.py b/x7/geom/transform.py
index 008e1cb..9573211 100644
--- a/x7/geom/transform.py
+++ b/x7/geom/transform.py
@@ -205,18 +205,18 @@ class Transform(Transformer):
 
     def scale_bbox(self, start: BBox, target: BBox, keep_aspect=False):
         """Update matrix to transform start BBox into target BBox (scale+translate)"""
+        # Compute everything first: a start without width or height must not leave self half updated
         if keep_aspect:
             # Retain aspect ratio and center transform
-            scale = min(target.width / start.width, target.height / start.height)
-            self.translate(-start.xl, -start.yl)
-            self.scale(scale, scale)
-            w_extra = target.width - start.width*scale
-            h_extra = target.height - start.height*scale
-            self.translate(target.xl + w_extra/2, target.yl + h_extra/2)
+            x_scale = y_scale = min(target.width / start.width, target.height / start.height)
+            x_target = target.xl + (target.width - start.width*x_scale)/2
+            y_target = target.yl + (target.height - start.height*y_scale)/2
         else:
-            self.translate(-start.xl, -start.yl)
-            self.scale(target.width / start.width, target.height / start.height)
-            self.translate(target.xl, target.yl)
+            x_scale, y_scale = target.width / start.width, target.height / start.height
+            x_target, y_target = target.xl, target.yl
+        self.translate(-start.xl, -start.yl)
+        self.scale(x_scale, y_scale)
+        self.translate(x_target, y_target)
         return self
 
     def rotate(self, degrees):
-- 
2.43.0


From d1de5415b7bbe5596303b1cb0e29f0a546ac4806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:25 +0000
Subject: [PATCH 32/38] fix: scale_bbox from or to an empty box is refused
 before the transform is changed

---
 x7/geom/transform.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x7/geom/transform.py b/x7/geom/transform.py
index 9573211..2b9828e 100644
--- a/x7/geom/transform.py
+++ b/x7/geom/transform.py
@@ -205,6 +205,8 @@ class Transform(Transformer):
 
     def scale_bbox(self, start: BBox, target: BBox, keep_aspect=False):
         """Update matrix to transform start BBox into target BBox (scale+translate)"""
+        if start.is_none or target.is_none:
+            raise ValueError("BBox is empty")
         # Compute everything first: a start without width or height must not leave self half updated
         if keep_aspect:
             # Retain aspect ratio and center transform
-- 
2.43.0


From 9d976d1fa65cf3243ca948a82da2e0aee6417830 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:47:29 +0000
Subject: [PATCH 33/38] fix: ElemCurve.restore refused for another number of
 control points changes nothing

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index ca402c4..b783a60 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -387,8 +387,8 @@ class ElemCurve(Elem):
 
     def restore(self, other: 'ElemCurve'):
         """Restore self from copy in other"""
-        super().restore(other)
         if len(self.control_points) == len(other.control_points):
+            super().restore(other)
             for cp, ocp in zip(self.control_points, other.control_points):
                 cp.restore(ocp)
         else:
-- 
2.43.0


From 0b578685838d887394b72ca4e9e9339fa5dce258 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:48:41 +0000
Subject: [PATCH 34/38] fix: a replacement refused in one group leaves every
 other group unchanged

---
 x7/geom/model.py | 30 +++++++++++++++++++++++++-----
 1 file changed, 25 insertions(+), 5 deletions(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index b783a60..8a7284d 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -991,18 +991,29 @@ class Group(Elem):
         else:
             return item
 
+    def check_replace(self, elem: Elem, replacement):
+        """Raise ValueError if replace() would have to be refused anywhere in this group"""
+
+        names = [name for name, e in self.elems.items() if e == elem]
+        if names:
+            if len(names) > 1 or replacement.name != names[0] and replacement.name in self.elems:
+                raise ValueError("Cannot replace %r into Group(%r) because it already exists" % (
+                    replacement.name, self.name))
+            if '.' in replacement.name:
+                raise ValueError('name may not contain ".": %r' % replacement.name)
+        for name, e in self.elems.items():
+            if name not in names and hasattr(e, 'check_replace'):
+                e.check_replace(elem, replacement)
+
     def replace(self, elem: Elem, replacement):
         """Replace this elem throughout the model.  Return count of replacements"""
 
+        # Either all of the replacements are made or none
+        self.check_replace(elem, replacement)
         count = 0
         for name, e in list(self.elems.items()):
             if e == elem:
                 print('Replacing %s with %s: %s' % (name, replacement.name, ','.join(self.elems.keys())))
-                if replacement.name != name and replacement.name in self.elems:
-                    raise ValueError("Cannot replace %r into Group(%r) because it already exists" % (
-                        replacement.name, self.name))
-                if '.' in replacement.name:
-                    raise ValueError('name may not contain ".": %r' % replacement.name)
                 # Keep the position (drawing order) of the replaced element
                 self.elems = {
                     (replacement.name if n == name else n): (replacement if n == name else old)
@@ -1193,9 +1204,18 @@ class ElemWithHoles(Elem):
         raise KeyError('%s: expected outside.%s or inside.{%s}, not %s' % (
             self.name, self.outside.name, ', '.join(e.name for e in self.inside), tag))
 
+    def check_replace(self, elem: Elem, replacement):
+        """Raise ValueError if replace() would have to be refused anywhere in this element"""
+
+        for e in [self.outside] + self.inside:
+            if e != elem and hasattr(e, 'check_replace'):
+                e.check_replace(elem, replacement)
+
     def replace(self, elem: Elem, replacement):
         """Replace this elem throughout the model.  Return count of replacements"""
 
+        # Either all of the replacements are made or none
+        self.check_replace(elem, replacement)
         count = 0
         members = [self.outside] + self.inside
         for idx, e in enumerate(members):
-- 
2.43.0


From 6e5e37fa74511d0c406444ed8fddbb7998d49113 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:51 +0000
Subject: [PATCH 35/38] fix: a path without pen is not stroked (PIL drew it in
 its default colour)

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index 8a7284d..cac4eb9 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -263,7 +263,7 @@ class Elem(ABC):
                     draw.show()
                 if do_outline:
                     draw.draw.line(p.tolist() + [p[0]], fill=path.penbrush.stroke_color, width=width, joint='curve')
-            else:
+            elif do_outline:
                 draw.draw.line(p, fill=path.penbrush.stroke_color, width=width, joint='curve')
             if draw.debug:
                 self.draw_path_debug(draw, path, p, do_outline)
-- 
2.43.0


From a701e73645ea53ddf84ff9922bd93a8459b4f5c7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:22:29 +0000
Subject: [PATCH 36/38] fix: a group is dumped in drawing order, so that the
 rebuilt group draws the same

---
 x7/geom/model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/x7/geom/model.py b/x7/geom/model.py
index cac4eb9..a4c026d 100644
--- a/x7/geom/model.py
+++ b/x7/geom/model.py
@@ -951,7 +951,7 @@ class Group(Elem):
             extra['points'] = self.points
         self.dump_elem(context, **extra, elems=list)
         with context:
-            for name, elem in sorted(self.elems.items()):
+            for name, elem in self.elems.items():
                 elem.dump(context)
                 context.add_comma()
         context.append('])')
-- 
2.43.0


From cb4f66c10d509cabcc44b64edda1ebc1cd607e9b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:23:56 +0000
Subject: [PATCH 37/38] fix: smoothing averages over the neighbours on both
 sides alike

---
 x7/geom/vec_field.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x7/geom/vec_field.py b/x7/geom/vec_field.py
index 5fece85..e1cff0b 100644
--- a/x7/geom/vec_field.py
+++ b/x7/geom/vec_field.py
@@ -115,8 +115,8 @@ class VectorField(Transformer):
                 u, v = 0, 0
                 count = 0
                 r = 2
-                for x in range(max(0, i - r), min(shape[0], i + r)):
-                    for y in range(max(0, j - r), min(shape[1], j + r)):
+                for x in range(max(0, i - r), min(shape[0], i + r + 1)):
+                    for y in range(max(0, j - r), min(shape[1], j + r + 1)):
                         u += self.vx[x, y]
                         v += self.vy[x, y]
                         count += 1
-- 
2.43.0


From ce00547c378437211c94eb2fd3068926bc027a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:43 +0000
Subject: [PATCH 38/38] fix: DrawingContext.polygon draws nothing without fill
 and outline

---
 x7/geom/drawing.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x7/geom/drawing.py b/x7/geom/drawing.py
index 1875ffb..b04aa5b 100644
--- a/x7/geom/drawing.py
+++ b/x7/geom/drawing.py
@@ -143,6 +143,8 @@ class DrawingContext(object):
             :param fill: color name or None for no fill
             :param outline: color name or None for no outline
         """
+        if fill is None and outline is None:
+            return      # PIL would draw the outline in its default color
         pts = self.matrix.transform_pts(points, True)
         self.draw.polygon(pts, fill=fill, outline=outline)
 
-- 
2.43.0

