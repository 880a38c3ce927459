From cc9c416258a09464e25db18401d0d0adf7337d7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:46 +0000
Subject: [PATCH 01/64] fix: keep curves that smooth curves depend on, repeated
 loops and inherited marker vertices

- A flat curve followed by a smooth curve was replaced with a line.
- A curve with a control point beyond its end was treated as a line.
- A second equal curve was removed, even though it draws another outline.
- Null lines before smooth curves were removed.
- Inherited markers were not detected.
---
 src/task/paths/conv_segments.rs | 34 +++++++++++++++++++++-----------
 src/task/paths/mod.rs           | 30 ++++++++++++++++++++++++++--
 src/task/paths/rm_unused.rs     | 35 +++++++++++++++++++++++++++++----
 3 files changed, 81 insertions(+), 18 deletions(-)

diff --git a/src/task/paths/conv_segments.rs b/src/task/paths/conv_segments.rs
index 3644843..26c1035 100644
--- a/src/task/paths/conv_segments.rs
+++ b/src/task/paths/conv_segments.rs
@@ -138,31 +138,30 @@ fn _convert_segments(path: &mut Path, is_changed: &mut bool) {
     while i < path.d.len() {
         let prev_seg = path.d[i - 1];
         let (prev_x, prev_y) = utils::resolve_xy(path, i - 1);
+        let is_smooth_next = utils::is_followed_by_smooth(path, i);
         let curr_seg = &mut path.d[i];
         match *curr_seg.data() {
             SegmentData::CurveTo { x1, y1, x2, y2, x, y } => {
                 let is_vlineto = || {
                     // If prev_x, x1, x2 and x are equal than this CurveTo is VerticalLineTo.
-                    // y1 must be equal or greater than prev_y.
-                    // y2 must be equal or less than y.
+                    // y1 and y2 must be between prev_y and y.
 
                        prev_x.fuzzy_eq(&x)
                     && x1.fuzzy_eq(&x2)
                     && x1.fuzzy_eq(&x)
-                    && y1.fuzzy_cmp(&prev_y) != Ordering::Less
-                    && y2.fuzzy_cmp(&y) != Ordering::Greater
+                    && is_between(prev_y, y, y1)
+                    && is_between(prev_y, y, y2)
                 };
 
                 let is_hlineto = || {
                     // If prev_y, y1, y2 and y are equal - this CurveTo is HorizontalLineTo.
-                    // x1 must be equal or greater than prev_x.
-                    // x2 must be equal or less than x.
+                    // x1 and x2 must be between prev_x and x.
 
                        prev_y.fuzzy_eq(&y)
                     && y1.fuzzy_eq(&y2)
                     && y1.fuzzy_eq(&y)
-                    && x1.fuzzy_cmp(&prev_x) != Ordering::Less
-                    && x2.fuzzy_cmp(&x) != Ordering::Greater
+                    && is_between(prev_x, x, x1)
+                    && is_between(prev_x, x, x2)
                 };
 
                 let is_lineto = || {
@@ -170,13 +169,15 @@ fn _convert_segments(path: &mut Path, is_changed: &mut bool) {
                     && is_point_on_line(prev_x, prev_y, x, y, x2, y2)
                 };
 
-                if is_vlineto() {
+                // The next smooth curve uses our second control point,
+                // so such curve can't be replaced with a line.
+                if !is_smooth_next && is_vlineto() {
                     *curr_seg = Segment::new_line_to(prev_x, y);
                     *is_changed = true;
-                } else if is_hlineto() {
+                } else if !is_smooth_next && is_hlineto() {
                     *curr_seg = Segment::new_line_to(x, prev_y);
                     *is_changed = true;
-                } else if is_lineto() {
+                } else if !is_smooth_next && is_lineto() {
                     *curr_seg = Segment::new_line_to(x, y);
                     *is_changed = true;
                 } else {
@@ -206,6 +207,15 @@ fn _convert_segments(path: &mut Path, is_changed: &mut bool) {
     }
 }
 
+// Checks that `v` is between `v1` and `v2`, in any order.
+fn is_between(v1: f64, v2: f64, v: f64) -> bool {
+    let o1 = v.fuzzy_cmp(&v1);
+    let o2 = v.fuzzy_cmp(&v2);
+
+       (o1 != Ordering::Less    && o2 != Ordering::Greater)
+    || (o1 != Ordering::Greater && o2 != Ordering::Less)
+}
+
 fn is_point_on_line(x1: f64, y1: f64, x2: f64, y2: f64, x: f64, y: f64) -> bool {
     // Check that point is actually on line.
     let is_on_line = || {
@@ -235,7 +245,7 @@ fn is_point_on_line(x1: f64, y1: f64, x2: f64, y2: f64, x: f64, y: f64) -> bool
 
         if y.fuzzy_eq(&c) {
             if    ( x.fuzzy_cmp(&x1) == Ordering::Greater && x.fuzzy_cmp(&x2) == Ordering::Less)
-               || (x2.fuzzy_cmp(&x1) == Ordering::Greater && x.fuzzy_cmp(&x1) == Ordering::Less) {
+               || (x.fuzzy_cmp(&x2) == Ordering::Greater && x.fuzzy_cmp(&x1) == Ordering::Less) {
                 return true;
             }
         }
diff --git a/src/task/paths/mod.rs b/src/task/paths/mod.rs
index 18fc59a..03984ec 100644
--- a/src/task/paths/mod.rs
+++ b/src/task/paths/mod.rs
@@ -19,6 +19,7 @@
 use svgdom::{
     AttributeValue,
     Document,
+    Node,
     Transform,
 };
 use svgdom::path::Path;
@@ -37,8 +38,9 @@ pub fn process_paths(doc: &Document, opt: &CleaningOptions) {
         // it will break rendering.
         //
         // TODO: do not remove first segment if node has marker
-        let has_marker = node.has_attributes(&[AId::Marker, AId::MarkerStart,
-                                               AId::MarkerMid, AId::MarkerEnd]);
+        //
+        // The marker can also be inherited, including via `use`.
+        let has_marker = has_marker(&node) || is_used_with_marker(doc, &node);
 
         let mut ts = None;
         if opt.apply_transform_to_paths {
@@ -69,6 +71,22 @@ pub fn process_paths(doc: &Document, opt: &CleaningOptions) {
     }
 }
 
+// Checks that element or any of it's parents has a marker.
+fn has_marker(node: &Node) -> bool {
+    node.parents_with_self().any(|n| n.has_attributes(&[AId::Marker, AId::MarkerStart,
+                                                AId::MarkerMid, AId::MarkerEnd]))
+}
+
+// Checks that element or any of it's parents can inherit a marker from the `use` element.
+fn is_used_with_marker(doc: &Document, node: &Node) -> bool {
+    if !node.parents_with_self().any(|n| n.is_used()) {
+        return false;
+    }
+
+    // Nested `use` elements can inherit a marker too, so we just check all of them.
+    doc.descendants().filter(|n| n.is_tag_name(EId::Use)).any(|n| has_marker(&n))
+}
+
 fn process_path(path: &mut Path, has_marker: bool, ts: Option<Transform>, opt: &CleaningOptions) {
     if path.d.is_empty() {
         return;
@@ -112,6 +130,14 @@ fn process_path(path: &mut Path, has_marker: bool, ts: Option<Transform>, opt: &
 mod utils {
     use svgdom::path::{Path, Command};
 
+    // Checks that the next segment takes its first control point from the current one.
+    pub fn is_followed_by_smooth(path: &Path, i: usize) -> bool {
+        match path.d.get(i + 1).map(|seg| seg.cmd()) {
+            Some(Command::SmoothCurveTo) | Some(Command::SmoothQuadratic) => true,
+            _ => false,
+        }
+    }
+
     // HorizontalLineTo, VerticalLineTo and ClosePath does not have 'x'/'y' coordinates,
     // so we have to find them in previous segments.
     pub fn resolve_xy(path: &Path, start: usize) -> (f64, f64) {
diff --git a/src/task/paths/rm_unused.rs b/src/task/paths/rm_unused.rs
index 581f6d4..082d8e0 100644
--- a/src/task/paths/rm_unused.rs
+++ b/src/task/paths/rm_unused.rs
@@ -118,10 +118,35 @@ fn remove_mz(path: &mut Path) -> bool {
 }
 
 // If current segment is the same as previous - remove it.
+//
+// The second of two equal curves is not a null segment: it starts where the first one ends
+// and still draws a loop. It can be removed only when it repeats the previous loop exactly.
 fn remove_equal(path: &mut Path) -> bool {
-    drain_by_pair(path, DrainMode::Single, |prev, curr| {
-        prev.fuzzy_eq(curr)
-    })
+    let old_len = path.d.len();
+
+    let mut i = 1;
+    while i < path.d.len() {
+        let prev = path.d[i - 1];
+        let curr = path.d[i];
+
+        let is_null = prev.fuzzy_eq(&curr) && match curr.cmd() {
+            Command::CurveTo | Command::Quadratic => {
+                let (px, py) = utils::resolve_xy(path, i.saturating_sub(2));
+                px.fuzzy_eq(&curr.x().unwrap()) && py.fuzzy_eq(&curr.y().unwrap())
+            }
+            // The first control point depends on the previous segment.
+            Command::SmoothCurveTo | Command::SmoothQuadratic => false,
+            _ => true,
+        };
+
+        if is_null {
+            path.d.remove(i);
+        } else {
+            i += 1;
+        }
+    }
+
+    old_len != path.d.len()
 }
 
 // If segment moved to the same position as current - remove it.
@@ -132,7 +157,9 @@ fn remove_zero_lenght(path: &mut Path, is_changed: &mut bool) {
         let (px, py) = utils::resolve_xy(path, i - 1);
 
         let is_equal = match curr.cmd() {
-            Command::LineTo => {
+            // A smooth curve must not become a neighbour of the segment before this one,
+            // because it will inherit its control point.
+            Command::LineTo if !utils::is_followed_by_smooth(path, i) => {
                 curr.x().unwrap().fuzzy_eq(&px) && curr.y().unwrap().fuzzy_eq(&py)
             }
             // Curves can't be removed.
-- 
2.43.0


From fff934884dda1e8ed814a8ddd5c8df6eaae3e348 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:52:40 +0000
Subject: [PATCH 02/64] fix: do not convert a rect that has or inherits markers
 to a path

Markers are not applicable to 'rect', but they are to 'path'.
---
 src/task/conv_shapes.rs |  5 +++++
 src/task/paths/mod.rs   | 19 +------------------
 src/task/utils.rs       | 24 +++++++++++++++++++++++-
 3 files changed, 29 insertions(+), 19 deletions(-)

diff --git a/src/task/conv_shapes.rs b/src/task/conv_shapes.rs
index 6f5530f..78f864d 100644
--- a/src/task/conv_shapes.rs
+++ b/src/task/conv_shapes.rs
@@ -77,6 +77,11 @@ fn convert_line(node: &mut Node) {
 fn convert_rect(node: &mut Node) {
     debug_assert!(node.is_tag_name(EId::Rect));
 
+    // A `rect` can't have markers, but a `path` can.
+    if ::task::utils::can_have_marker(node) {
+        return;
+    }
+
     let path = {
         let attrs = node.attributes();
 
diff --git a/src/task/paths/mod.rs b/src/task/paths/mod.rs
index 03984ec..f484b1b 100644
--- a/src/task/paths/mod.rs
+++ b/src/task/paths/mod.rs
@@ -19,7 +19,6 @@
 use svgdom::{
     AttributeValue,
     Document,
-    Node,
     Transform,
 };
 use svgdom::path::Path;
@@ -40,7 +39,7 @@ pub fn process_paths(doc: &Document, opt: &CleaningOptions) {
         // TODO: do not remove first segment if node has marker
         //
         // The marker can also be inherited, including via `use`.
-        let has_marker = has_marker(&node) || is_used_with_marker(doc, &node);
+        let has_marker = ::task::utils::can_have_marker(&node);
 
         let mut ts = None;
         if opt.apply_transform_to_paths {
@@ -71,22 +70,6 @@ pub fn process_paths(doc: &Document, opt: &CleaningOptions) {
     }
 }
 
-// Checks that element or any of it's parents has a marker.
-fn has_marker(node: &Node) -> bool {
-    node.parents_with_self().any(|n| n.has_attributes(&[AId::Marker, AId::MarkerStart,
-                                                AId::MarkerMid, AId::MarkerEnd]))
-}
-
-// Checks that element or any of it's parents can inherit a marker from the `use` element.
-fn is_used_with_marker(doc: &Document, node: &Node) -> bool {
-    if !node.parents_with_self().any(|n| n.is_used()) {
-        return false;
-    }
-
-    // Nested `use` elements can inherit a marker too, so we just check all of them.
-    doc.descendants().filter(|n| n.is_tag_name(EId::Use)).any(|n| has_marker(&n))
-}
-
 fn process_path(path: &mut Path, has_marker: bool, ts: Option<Transform>, opt: &CleaningOptions) {
     if path.d.is_empty() {
         return;
diff --git a/src/task/utils.rs b/src/task/utils.rs
index 26deec5..08d5905 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -22,7 +22,7 @@ use svgdom::{
     Node,
 };
 
-use task::short::AId;
+use task::short::{AId, EId};
 
 pub fn recalc_stroke(node: &mut Node, scale_factor: f64) {
     recalc_stroke_num(node, AId::StrokeWidth, scale_factor);
@@ -79,6 +79,28 @@ fn recalc_stroke_dasharray(node: &mut Node, scale_factor: f64) {
     }
 }
 
+// Checks that element has a marker or can inherit it.
+pub fn can_have_marker(node: &Node) -> bool {
+    if has_marker(node) {
+        return true;
+    }
+
+    // Referenced elements also inherit properties from the `use` element.
+    // Nested `use` elements can inherit a marker too, so we just check all of them.
+    if node.parents_with_self().any(|n| n.is_used()) {
+        return node.document().descendants()
+            .filter(|n| n.is_tag_name(EId::Use))
+            .any(|n| has_marker(&n));
+    }
+
+    false
+}
+
+fn has_marker(node: &Node) -> bool {
+    node.parents_with_self().any(|n| n.has_attributes(&[AId::Marker, AId::MarkerStart,
+                                                        AId::MarkerMid, AId::MarkerEnd]))
+}
+
 pub fn remove_nodes(nodes: &mut Vec<Node>) {
     for n in nodes.iter_mut() {
         n.remove();
-- 
2.43.0


From c18133701d2efe314a8143147c441b3d621cc6d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:30 +0000
Subject: [PATCH 03/64] fix: keep the children of switch that draw nothing

Only the first child of 'switch' is rendered, so removing it enables the next one.
---
 src/task/rm_invisible_elems.rs | 18 ++++++++++++++----
 src/task/ungroup_groups.rs     |  4 +++-
 2 files changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 96c3b20..cb2aa34 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -51,6 +51,12 @@ pub fn remove_invisible_elements(doc: &mut Document) {
     }
 }
 
+// The `switch` element renders only one of its children, even if this child draws nothing.
+// So by removing it we will enable the next one.
+fn is_switch_child(node: &Node) -> bool {
+    node.parent().map(|p| p.is_tag_name(EId::Switch)).unwrap_or(false)
+}
+
 // Remove invalid elements from 'clipPath' and if 'clipPath' is empty or became empty
 // - remove it and all elements that became invalid or unused.
 fn process_clip_paths(doc: &Document, is_any_removed: &mut bool) {
@@ -118,7 +124,7 @@ fn process_paths(doc: &mut Document, is_any_removed: &mut bool) {
         }
     }
 
-    let c = doc.drain(|n| n.is_tag_name(EId::Path) && is_invisible(n));
+    let c = doc.drain(|n| n.is_tag_name(EId::Path) && is_invisible(n) && !is_switch_child(n));
     if c != 0 {
         *is_any_removed = true;
     }
@@ -141,7 +147,9 @@ fn _process_display_attribute(parent: &Node, nodes: &mut Vec<Node>, is_any_remov
     for (_, node) in parent.children().svg() {
         // If elements has attribute 'display:none' and this element is not used - we can remove it.
         let val = AttributeValue::PredefValue(ValueId::None);
-        if node.attributes().get_value(AId::Display) == Some(&val) && !node.is_used() {
+        if    node.attributes().get_value(AId::Display) == Some(&val)
+           && !node.is_used()
+           && !is_switch_child(&node) {
             // All children must be unused to.
             if !node.descendants().any(|n| n.is_used()) {
                 // TODO: ungroup used elements and remove unused
@@ -213,7 +221,9 @@ fn process_fe_color_matrix(doc: &mut Document) {
 
 // 'use' element without 'xlink:href' attribute is pointless.
 fn process_use(doc: &mut Document, is_any_removed: &mut bool) {
-    let c = doc.drain(|n| n.is_tag_name(EId::Use) && !n.has_attribute(AId::XlinkHref));
+    let c = doc.drain(|n| {
+        n.is_tag_name(EId::Use) && !n.has_attribute(AId::XlinkHref) && !is_switch_child(n)
+    });
     if c != 0 {
         *is_any_removed = true;
     }
@@ -309,7 +319,7 @@ fn find_link_attribute(node: &Node, link: &Node) -> Option<AId> {
 // Remove rects with a zero size.
 fn process_rect(doc: &mut Document, is_any_removed: &mut bool) {
     fn is_invisible(node: &Node) -> bool {
-        if !node.is_tag_name(EId::Rect) {
+        if !node.is_tag_name(EId::Rect) || is_switch_child(node) {
             return false;
         }
 
diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index e9e03e6..0095f3c 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -70,7 +70,9 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
     if !g.has_children() && !g.has_attribute(AId::Filter) {
         // Empty group without filter attribute.
         // Checkout 'filters-tile-01-b.svg' in 'W3C_SVG_11_TestSuite' for details.
-        return true;
+        //
+        // An empty group can still be selected by the 'switch' element.
+        return !parent.is_tag_name(EId::Switch);
     }
 
     // Group shouldn't be used.
-- 
2.43.0


From ca58434c475025f0271a7dbe1fb46c766a0a4a43 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 04/64] fix: do not lose attributes and transform of an element
 when resolving use

- The transform of the referenced element was replaced with the transform of 'use'.
- Attributes of 'use' were replacing attributes of the referenced element.
- 'use' with non-number units in x/y was losing it's link.
---
 src/task/resolve_use.rs | 100 +++++++++++++++++++++++++++++++---------
 1 file changed, 78 insertions(+), 22 deletions(-)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index 29e17bb..8f562a2 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -20,6 +20,7 @@ use svgdom::{
     AttributeValue,
     Document,
     Length,
+    Node,
     Transform,
 };
 
@@ -58,6 +59,10 @@ pub fn resolve_use(doc: &Document) {
                     continue;
                 }
 
+                if !can_be_replaced(&node, link) {
+                    continue;
+                }
+
                 nodes.push((node.clone(), link.clone()));
             }
         }
@@ -67,34 +72,34 @@ pub fn resolve_use(doc: &Document) {
         // Unlink 'use'.
         node.remove_attribute(AId::XlinkHref);
 
-        {
-            // 'use' element support 'x', 'y' and 'transform' attributes and we should process them
-            // so we apply translate transform to the linked element transform.
-
-            let mut attrs = node.attributes_mut();
-
-            // 'x' or 'y' should be set.
-            if attrs.contains(AId::X) || attrs.contains(AId::Y) {
-                let x = get_value!(attrs, Length, AId::X, Length::zero());
-                let y = get_value!(attrs, Length, AId::Y, Length::zero());
-
-                // We can apply 'x' and 'y' to transform only when they have 'none' units.
-                if !(x.unit == Unit::None && y.unit == Unit::None) {
-                    continue;
-                }
+        // 'use' element support 'x', 'y' and 'transform' attributes and we should process them
+        // so we apply translate transform to the linked element transform.
 
-                let mut ts = get_value!(attrs, Transform, AId::Transform, Transform::default());
-                ts.translate(x.num, y.num);
+        let mut ts = get_transform(&node);
+        let (x, y) = get_pos(&node);
+        ts.translate(x.num, y.num);
+        ts.append(&get_transform(&link));
 
-                attrs.insert_from(AId::Transform, ts);
-                attrs.remove(AId::X);
-                attrs.remove(AId::Y);
-            }
+        if !ts.is_default() {
+            link.set_attribute((AId::Transform, ts));
+        } else {
+            link.remove_attribute(AId::Transform);
         }
 
         // Copy attributes.
         for attr in node.attributes().iter() {
-            link.set_attribute(attr.clone());
+            match attr.id() {
+                Some(AId::X) | Some(AId::Y) | Some(AId::Width) | Some(AId::Height) |
+                Some(AId::Transform) => continue,
+                _ => {}
+            }
+
+            // The linked element inherits from the 'use' element,
+            // so it's own attributes have a higher priority.
+            let is_set = link.attributes().contains(attr.name.into_ref());
+            if !is_set {
+                link.set_attribute(attr.clone());
+            }
         }
 
         // TODO: maybe just change the tag name
@@ -105,6 +110,57 @@ pub fn resolve_use(doc: &Document) {
     }
 }
 
+// Checks that the 'use' element can be replaced with the element it links to.
+fn can_be_replaced(node: &Node, link: &Node) -> bool {
+    // Viewport of the nested 'svg' can be changed by 'use' and it can't be transformed.
+    if link.is_tag_name(EId::Svg) {
+        return false;
+    }
+
+    // We will lose them.
+    if node.has_children() {
+        return false;
+    }
+
+    // We can apply 'x' and 'y' to transform only when they have 'none' units.
+    let (x, y) = get_pos(node);
+    if !(x.unit == Unit::None && y.unit == Unit::None) {
+        return false;
+    }
+
+    // This attributes are not inheritable, so element can't have two of them.
+    // Also, the order of applying is important.
+    let effects = [AId::ClipPath, AId::Mask, AId::Filter, AId::Opacity];
+    if node.has_attributes(&effects) && link.has_attributes(&effects) {
+        return false;
+    }
+
+    // 'use' has it's own coordinate system.
+    let links = [AId::ClipPath, AId::Mask, AId::Filter];
+    if node.has_attributes(&links) && link.has_attribute(AId::Transform) {
+        return false;
+    }
+
+    // 'display' is not inheritable too.
+    if node.has_attribute(AId::Display) && link.has_attribute(AId::Display) {
+        return false;
+    }
+
+    true
+}
+
+fn get_pos(node: &Node) -> (Length, Length) {
+    let attrs = node.attributes();
+    let x = get_value!(attrs, Length, AId::X, Length::zero());
+    let y = get_value!(attrs, Length, AId::Y, Length::zero());
+    (x, y)
+}
+
+fn get_transform(node: &Node) -> Transform {
+    let attrs = node.attributes();
+    get_value!(attrs, Transform, AId::Transform, Transform::default())
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 1cc9fa2a06a9e89051ecccfda141bc4c9368f8d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:05:18 +0000
Subject: [PATCH 05/64] fix: do not apply transform to referenced elements and
 elements with markers

They can inherit stroke properties from 'use' and markers must be transformed too.
---
 src/task/apply_transforms/mod.rs | 11 ++++++++++-
 1 file changed, 10 insertions(+), 1 deletion(-)

diff --git a/src/task/apply_transforms/mod.rs b/src/task/apply_transforms/mod.rs
index caec379..c81ef2c 100644
--- a/src/task/apply_transforms/mod.rs
+++ b/src/task/apply_transforms/mod.rs
@@ -67,7 +67,16 @@ pub mod utils {
     // TODO: process 'fill', 'stroke' and 'filter' linked elements only if they
     //       used only by this element.
     pub fn is_valid_attrs(node: &Node) -> bool {
-        for aid in &[AId::Fill, AId::Stroke, AId::Filter, AId::Mask, AId::ClipPath] {
+        // Referenced element inherits attributes from the `use` element,
+        // so we don't know the actual stroke properties.
+        let is_used = node.parents_with_self()
+                          .any(|n| n.linked_nodes().any(|l| l.is_tag_name(EId::Use)));
+        if is_used {
+            return false;
+        }
+
+        for aid in &[AId::Fill, AId::Stroke, AId::Filter, AId::Mask, AId::ClipPath,
+                     AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd] {
             if !is_valid_attr(node, *aid) {
                 return false;
             }
-- 
2.43.0


From a3e715db9ee80ed6c0a3c144ddace5bccc1aadaf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 06/64] fix: removal of text attributes ignored text reached
 through a use inside of a group

---
 src/task/rm_text_attrs.rs | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/task/rm_text_attrs.rs b/src/task/rm_text_attrs.rs
index 9a439f9..0e27b9f 100644
--- a/src/task/rm_text_attrs.rs
+++ b/src/task/rm_text_attrs.rs
@@ -109,11 +109,11 @@ fn _remove_text_attributes(parent: &Node) -> bool {
             // Only this parameters affect parent elements.
             let _no_td = !(   node.descendants().any(|n| n.node_type() == NodeType::Text)
                            || node.is_tag_name(EId::Tref)
-                           || has_em_ex_attributes(&node));
+                           || has_em_ex_attributes(&node)
+                           || is_linked_text(&node));
 
             if    _no_td
-               && !node.is_tag_name(EId::FontFace)
-               && !is_linked_text(&node) {
+               && !node.is_tag_name(EId::FontFace) {
                 node.remove_attributes(TEXT_ATTRIBUTES);
             }
 
-- 
2.43.0


From 1fc43dac8a35310de0bc8577b76386b1507c8f07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 07/64] fix: stroke properties were removed from elements with
 inherited markers

---
 src/task/rm_needless_attrs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_needless_attrs.rs b/src/task/rm_needless_attrs.rs
index 184ce33..8c54bd1 100644
--- a/src/task/rm_needless_attrs.rs
+++ b/src/task/rm_needless_attrs.rs
@@ -27,6 +27,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId};
+use task::utils;
 
 // TODO: split to suboptions
 
@@ -184,7 +185,7 @@ static STROKE_ATTRIBUTES: &'static [AId] = &[
 fn process_stroke(node: &mut Node) {
     fn is_invisible(node: &Node) -> bool {
         // Skip nodes with marker, because it doesn't count opacity and stroke-width.
-        if node.has_attributes(&[AId::Marker, AId::MarkerStart, AId::MarkerMid, AId::MarkerEnd]) {
+        if utils::can_have_marker(node) {
             return false;
         }
 
-- 
2.43.0


From 0b14bc581a7409ceb5929d97b15f31e01d40a52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 08/64] fix: common transform was moved to a nested svg which
 doesn't support it

---
 src/task/group_by_style.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/group_by_style.rs b/src/task/group_by_style.rs
index e584f43..8d4d52b 100644
--- a/src/task/group_by_style.rs
+++ b/src/task/group_by_style.rs
@@ -429,6 +429,11 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
                 if !super::apply_transforms::utils::is_valid_attrs(parent) {
                     continue;
                 }
+
+                // A nested 'svg' doesn't support transform.
+                if parent.is_tag_name(EId::Svg) && parent.parents().any(|n| n.is_tag_name(EId::Svg)) {
+                    continue;
+                }
             } else if !attr.is_inheritable() {
                 continue;
             }
-- 
2.43.0


From fa20eb0057f9547de9ec0b00d8d0e9aca1033f40 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:13:12 +0000
Subject: [PATCH 09/64] fix: ungroup-groups and resolve-use changed the font
 used by relative units, copied display over display=none, overflow to
 children

---
 src/task/resolve_use.rs    |  6 ++++++
 src/task/ungroup_groups.rs | 19 +++++++++++++++-
 src/task/utils.rs          | 44 +++++++++++++++++++++++++++++++++++++-
 3 files changed, 67 insertions(+), 2 deletions(-)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index 8f562a2..e7bb550 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -25,6 +25,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId, Unit};
+use task::utils;
 
 pub fn resolve_use(doc: &Document) {
     let mut nodes = Vec::new();
@@ -141,6 +142,11 @@ fn can_be_replaced(node: &Node, link: &Node) -> bool {
         return false;
     }
 
+    // Relative units can be resolved using different fonts.
+    if !utils::is_same_font_units(node, link) {
+        return false;
+    }
+
     // 'display' is not inheritable too.
     if node.has_attribute(AId::Display) && link.has_attribute(AId::Display) {
         return false;
diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 0095f3c..5c0fdad 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -20,10 +20,12 @@ use svgdom::{
     AttributeValue,
     Document,
     Node,
+    ValueId,
 };
 
 use task::short::{EId, AId};
 use task::apply_transforms;
+use task::utils;
 use options::CleaningOptions;
 
 pub fn ungroup_groups(doc: &Document, opt: &CleaningOptions) {
@@ -94,6 +96,16 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
         return false;
     }
 
+    // A nested 'svg' doesn't support transform.
+    if g.has_attribute(AId::Transform) && g.children().any(|n| n.is_tag_name(EId::Svg)) {
+        return false;
+    }
+
+    // Relative units of the group and it's children can be resolved using different fonts.
+    if g.children().any(|n| !utils::is_same_font_units(g, &n)) {
+        return false;
+    }
+
     if g.children().count() == 1 {
         let child = g.first_child().unwrap();
         // TODO: why child shouldn't be used?
@@ -173,13 +185,18 @@ fn ungroup_group(g: &mut Node) {
                 }
             }
 
-            if aid == AId::Display {
+            if aid == AId::Display && attr.value == AttributeValue::PredefValue(ValueId::None) {
                 // Display attribute has a priority during rendering, so we must
                 // copy it even if a child has it already.
                 child.set_attribute(attr.clone());
                 continue;
             }
 
+            // This attributes are not inheritable and have no effect on a group.
+            if aid == AId::Overflow || aid == AId::Clip {
+                continue;
+            }
+
             if !child.has_attribute(aid) {
                 child.set_attribute(attr.clone());
             }
diff --git a/src/task/utils.rs b/src/task/utils.rs
index 08d5905..ec9db5a 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -19,10 +19,11 @@
 use svgdom::{
     AttributeValue,
     FuzzyEq,
+    Length,
     Node,
 };
 
-use task::short::{AId, EId};
+use task::short::{AId, EId, Unit};
 
 pub fn recalc_stroke(node: &mut Node, scale_factor: f64) {
     recalc_stroke_num(node, AId::StrokeWidth, scale_factor);
@@ -101,6 +102,47 @@ fn has_marker(node: &Node) -> bool {
                                                         AId::MarkerMid, AId::MarkerEnd]))
 }
 
+// Checks that font-relative units have the same meaning on the parent element
+// and on the child element, so we can move attributes from one to another.
+pub fn is_same_font_units(parent: &Node, child: &Node) -> bool {
+    fn is_relative(len: &Length) -> bool {
+        len.unit == Unit::Em || len.unit == Unit::Ex
+    }
+
+    fn has_relative(node: &Node) -> bool {
+        node.attributes().iter().any(|a| match a.value {
+            AttributeValue::Length(ref len) => is_relative(len),
+            AttributeValue::LengthList(ref list) => list.iter().any(is_relative),
+            _ => false,
+        })
+    }
+
+    fn is_font_size_relative(node: &Node) -> bool {
+        match node.attributes().get_value(AId::FontSize) {
+            Some(&AttributeValue::Length(ref len)) => is_relative(len) || len.unit == Unit::Percent,
+            // 'larger' and 'smaller'.
+            Some(_) => true,
+            None => false,
+        }
+    }
+
+    if !child.is_svg_element() {
+        return true;
+    }
+
+    if child.has_attribute(AId::FontSize) {
+        if has_relative(parent) {
+            return false;
+        }
+
+        if parent.has_attribute(AId::FontSize) && is_font_size_relative(child) {
+            return false;
+        }
+    }
+
+    true
+}
+
 pub fn remove_nodes(nodes: &mut Vec<Node>) {
     for n in nodes.iter_mut() {
         n.remove();
-- 
2.43.0


From 7366e00a1cb2f1ddc4ba38e6d24c43fb197e5248 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:01 +0000
Subject: [PATCH 10/64] fix: default attributes of a referenced element were
 removed even when it can inherit them from use

---
 src/task/rm_default_attrs.rs  |  6 ++++++
 src/task/rm_needless_attrs.rs |  8 +++++++-
 src/task/utils.rs             | 34 ++++++++++++++++++++++++++++++++++
 3 files changed, 47 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index 1eff726..2877bc1 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -26,6 +26,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId, Unit};
+use task::utils;
 
 // TODO: xml:space
 
@@ -38,6 +39,11 @@ pub fn remove_default_attributes(doc: &Document) {
         for (aid, attr) in node.attributes().iter_svg() {
             if attr.is_presentation() {
                 if attr.check_is_default() {
+                    // A default value can override a value inherited from the 'use' element.
+                    if attr.is_inheritable() && utils::can_inherit_from_use(&node, aid) {
+                        continue;
+                    }
+
                     if let Some(n) = node.parents().find(|n| n.has_attribute(aid)) {
                         if let Some(a) = n.attributes().get(aid) {
                             if !a.visible {
diff --git a/src/task/rm_needless_attrs.rs b/src/task/rm_needless_attrs.rs
index 8c54bd1..c2e83d5 100644
--- a/src/task/rm_needless_attrs.rs
+++ b/src/task/rm_needless_attrs.rs
@@ -224,6 +224,11 @@ fn process_stroke(node: &mut Node) {
                     node.set_attribute((AId::Stroke, ValueId::None));
                 }
             }
+
+            // The same for the 'use' element.
+            if utils::can_inherit_from_use(node, AId::Stroke) {
+                node.set_attribute((AId::Stroke, ValueId::None));
+            }
         } else {
             let av = node.attributes().get_value(AId::Stroke).cloned();
             if let Some(av) = av {
@@ -234,7 +239,8 @@ fn process_stroke(node: &mut Node) {
 
                     // If the parent element doesn't define 'stroke' - we can remove it
                     // from the current element.
-                    if node.parents().find(|n| n.has_attribute(AId::Stroke)).is_none() {
+                    if    node.parents().find(|n| n.has_attribute(AId::Stroke)).is_none()
+                       && !utils::can_inherit_from_use(node, AId::Stroke) {
                         node.remove_attribute(AId::Stroke);
                     }
                 }
diff --git a/src/task/utils.rs b/src/task/utils.rs
index ec9db5a..8d70e9d 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -102,6 +102,40 @@ fn has_marker(node: &Node) -> bool {
                                                         AId::MarkerMid, AId::MarkerEnd]))
 }
 
+// Checks that the node is a part of an element referenced by `use`,
+// so it's also inherits properties from the `use` element.
+pub fn is_use_content(node: &Node) -> bool {
+    for n in node.parents_with_self() {
+        match n.tag_id() {
+            // This elements inherit properties only from their ancestors.
+              Some(EId::LinearGradient)
+            | Some(EId::RadialGradient)
+            | Some(EId::ClipPath)
+            | Some(EId::Filter)
+            | Some(EId::Marker)
+            | Some(EId::Mask)
+            | Some(EId::Pattern) => return false,
+            _ => {}
+        }
+
+        if n.linked_nodes().any(|n| n.is_tag_name(EId::Use)) {
+            return true;
+        }
+    }
+
+    false
+}
+
+// Checks that the node can inherit an attribute from any of the `use` elements.
+//
+// Referenced elements can contain nested `use` elements, so we just check all of them.
+pub fn can_inherit_from_use(node: &Node, aid: AId) -> bool {
+       is_use_content(node)
+    && node.document().descendants()
+           .filter(|n| n.is_tag_name(EId::Use))
+           .any(|n| n.parents_with_self().any(|n| n.has_attribute(aid)))
+}
+
 // Checks that font-relative units have the same meaning on the parent element
 // and on the child element, so we can move attributes from one to another.
 pub fn is_same_font_units(parent: &Node, child: &Node) -> bool {
-- 
2.43.0


From 27b1e43092ce99e47e131b663b02c5ca4f799a58 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 11/64] fix: default visibility of a referenced element was
 removed even when it can inherit it from use

---
 src/task/rm_default_attrs.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index 2877bc1..db9b516 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -40,7 +40,8 @@ pub fn remove_default_attributes(doc: &Document) {
             if attr.is_presentation() {
                 if attr.check_is_default() {
                     // A default value can override a value inherited from the 'use' element.
-                    if attr.is_inheritable() && utils::can_inherit_from_use(&node, aid) {
+                    if    (attr.is_inheritable() || aid == AId::Visibility)
+                       && utils::can_inherit_from_use(&node, aid) {
                         continue;
                     }
 
-- 
2.43.0


From c2e0663825923a7f0cb571b5293a52be346364d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:14:59 +0000
Subject: [PATCH 12/64] fix: inherit was resolved to a wrong value for relative
 units, not inheritable properties and referenced elements

---
 src/task/resolve_inherit.rs | 45 +++++++++++++++++++++++++++++++++++--
 1 file changed, 43 insertions(+), 2 deletions(-)

diff --git a/src/task/resolve_inherit.rs b/src/task/resolve_inherit.rs
index aa13dae..94c12a9 100644
--- a/src/task/resolve_inherit.rs
+++ b/src/task/resolve_inherit.rs
@@ -18,8 +18,11 @@
 
 use svgdom::{
     AttributeId,
+    AttributeType,
     AttributeValue,
     Document,
+    Length,
+    LengthUnit,
     Node,
     ValueId,
 };
@@ -28,6 +31,7 @@ use error::{
     ErrorKind,
     Result,
 };
+use task::utils;
 
 // TODO: split
 /// Resolve `inherit` and `currentColor` attributes.
@@ -75,8 +79,25 @@ pub fn resolve_inherit(doc: &Document) -> Result<()> {
 
 fn resolve_impl(node: &mut Node, curr_attr: AttributeId, parent_attr: AttributeId) -> Result<()> {
     if let Some(n) = node.parents().find(|n| n.has_attribute(parent_attr)) {
-        let av = n.attributes().get_value(parent_attr).cloned();
-        if let Some(av) = av {
+        let attr = n.attributes().get(parent_attr).cloned();
+        if let Some(attr) = attr {
+            let av = attr.value.clone();
+
+            if curr_attr == parent_attr {
+                if !attr.is_inheritable() && !attr.has_id(AttributeId::Visibility) {
+                    // Not inheritable attributes can be inherited only from the direct parent.
+                    if node.parent() != Some(n) {
+                        node.remove_attribute(curr_attr);
+                        return Ok(());
+                    }
+                } else if is_relative(curr_attr, &av) || utils::is_use_content(node) {
+                    // A copied value can have a different meaning here,
+                    // so let the element inherit it.
+                    node.remove_attribute(curr_attr);
+                    return Ok(());
+                }
+            }
+
             node.set_attribute((curr_attr, av.clone()));
         }
 
@@ -86,6 +107,26 @@ fn resolve_impl(node: &mut Node, curr_attr: AttributeId, parent_attr: AttributeI
     }
 }
 
+// Checks that a value depends on the font size of an element.
+fn is_relative(aid: AttributeId, value: &AttributeValue) -> bool {
+    let is_relative_len = |len: &Length| {
+           len.unit == LengthUnit::Em
+        || len.unit == LengthUnit::Ex
+        || (aid == AttributeId::FontSize && len.unit == LengthUnit::Percent)
+    };
+
+    match *value {
+        AttributeValue::Length(ref len) => is_relative_len(len),
+        AttributeValue::LengthList(ref list) => list.iter().any(is_relative_len),
+        // 'larger' and 'smaller'.
+        AttributeValue::PredefValue(id) => {
+               aid == AttributeId::FontSize
+            && (id == ValueId::Larger || id == ValueId::Smaller)
+        }
+        _ => false,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 2d2f5098b3add1f941ec611a7f78af0efcc1ccfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:48 +0000
Subject: [PATCH 13/64] fix: fill and stroke attributes which a referenced
 element inherits were removed from use

---
 src/task/rm_needless_attrs.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/task/rm_needless_attrs.rs b/src/task/rm_needless_attrs.rs
index c2e83d5..4c26415 100644
--- a/src/task/rm_needless_attrs.rs
+++ b/src/task/rm_needless_attrs.rs
@@ -53,8 +53,12 @@ pub fn remove_needless_attributes(doc: &Document) {
             node.remove_attribute(AId::EnableBackground);
         }
 
-        process_fill(&mut node);
-        process_stroke(&mut node);
+        // 'use' has no own fill and stroke, but a referenced element can inherit them.
+        if id != EId::Use {
+            process_fill(&mut node);
+            process_stroke(&mut node);
+        }
+
         process_overflow(&mut node);
     }
 }
-- 
2.43.0


From 9187bdbfce87b11401e3065e61fce6f03ceea69e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:17:04 +0000
Subject: [PATCH 14/64] fix: currentColor of a referenced element was resolved
 to the color of its ancestors instead of the color of use

---
 src/task/resolve_inherit.rs | 35 +++++++++++++++++++++++++++++++++++
 1 file changed, 35 insertions(+)

diff --git a/src/task/resolve_inherit.rs b/src/task/resolve_inherit.rs
index 94c12a9..a651de2 100644
--- a/src/task/resolve_inherit.rs
+++ b/src/task/resolve_inherit.rs
@@ -21,6 +21,7 @@ use svgdom::{
     AttributeType,
     AttributeValue,
     Document,
+    ElementId,
     Length,
     LengthUnit,
     Node,
@@ -65,6 +66,12 @@ pub fn resolve_inherit(doc: &Document) -> Result<()> {
         }
 
         for id in &vec_curr_color {
+            // The color of a referenced element can depend on the 'use' element,
+            // so we can't resolve it.
+            if is_color_from_use(&node) {
+                return Err(ErrorKind::UnresolvedAttribute(id.to_string()).into());
+            }
+
             let av = node.attributes().get_value(AttributeId::Color).cloned();
             if let Some(av) = av {
                 node.set_attribute((*id, av.clone()));
@@ -107,6 +114,34 @@ fn resolve_impl(node: &mut Node, curr_attr: AttributeId, parent_attr: AttributeI
     }
 }
 
+// Checks that the node is referenced by `use` and will inherit
+// a color different from the one defined by it's ancestors.
+fn is_color_from_use(node: &Node) -> bool {
+    let with_color = |node: &Node| {
+        node.parents_with_self().find(|n| n.has_attribute(AttributeId::Color))
+    };
+
+    if !utils::is_use_content(node) {
+        return false;
+    }
+
+    // The nearest element which defines the color or which is referenced by 'use'.
+    let elem = node.parents_with_self().find(|n| {
+           n.has_attribute(AttributeId::Color)
+        || n.linked_nodes().any(|n| n.is_tag_name(ElementId::Use))
+    });
+
+    match elem {
+        Some(ref n) if !n.has_attribute(AttributeId::Color) => {
+            let color = with_color(node);
+            node.document().descendants()
+                .filter(|n| n.is_tag_name(ElementId::Use))
+                .any(|n| with_color(&n) != color)
+        }
+        _ => false,
+    }
+}
+
 // Checks that a value depends on the font size of an element.
 fn is_relative(aid: AttributeId, value: &AttributeValue) -> bool {
     let is_relative_len = |len: &Length| {
-- 
2.43.0


From c932c0d7eb0750d4d410bf2845d8c0e315a0c660 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:24:22 +0000
Subject: [PATCH 15/64] fix: gradients with and without a link were treated as
 duplicates, which lost stops or crashed with a crosslink

---
 src/task/rm_dupl_defs/mod.rs | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index d2304bc..447a401 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -104,9 +104,15 @@ fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
 
     check_attr!(&attrs1, &attrs2, AId::GradientTransform, Transform::default());
 
-    if attrs1.contains(AId::XlinkHref) && attrs2.contains(AId::XlinkHref) {
-        if attrs1.get_value(AId::XlinkHref).unwrap() != attrs2.get_value(AId::XlinkHref).unwrap() {
-            return false;
+    // Gradients must be linked to the same gradient or one to another,
+    // otherwise they can have different stops or relinking will create a crosslink.
+    let link1 = attrs1.get_value(AId::XlinkHref);
+    let link2 = attrs2.get_value(AId::XlinkHref);
+    if link1 != link2 {
+        match (link1, link2) {
+            (Some(&AttributeValue::Link(ref n)), None) if n == node2 => {}
+            (None, Some(&AttributeValue::Link(ref n))) if n == node1 => {}
+            _ => return false,
         }
     }
 
-- 
2.43.0


From 3540994baf77efdc92156df38fb4b81b42de6f1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:25:39 +0000
Subject: [PATCH 16/64] fix: simplification of a single stop gradient lost
 fill-opacity and gradients linked to it

---
 src/task/rm_invisible_elems.rs | 48 +++++++++++++++++++++++++++++++---
 1 file changed, 44 insertions(+), 4 deletions(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index cb2aa34..a6e571e 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -240,11 +240,19 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
 
         for n in iter {
             for mut link in n.linked_nodes().collect::<Vec<Node>>() {
+                // Can be a gradient with own stops.
+                if link.is_gradient() {
+                    continue;
+                }
+
                 while let Some(aid) = find_link_attribute(&link, &n) {
                     link.set_attribute((aid, ValueId::None));
                 }
             }
-            nodes.push(n.clone());
+
+            if can_remove_gradient(&n) {
+                nodes.push(n.clone());
+            }
         }
     }
 
@@ -276,18 +284,25 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
             for mut link in n.linked_nodes()
                              .filter(|n| !n.is_gradient())
                              .collect::<Vec<Node>>() {
+                if opacity.fuzzy_ne(&1.0) && !can_apply_opacity(&link) {
+                    continue;
+                }
+
                 while let Some(aid) = find_link_attribute(&link, &n) {
                     link.set_attribute((aid, color));
                     if opacity.fuzzy_ne(&1.0) {
                         match aid {
-                            AId::Fill => link.set_attribute((AId::FillOpacity, opacity)),
-                            AId::Stroke => link.set_attribute((AId::StrokeOpacity, opacity)),
+                            AId::Fill => apply_opacity(&mut link, AId::FillOpacity, opacity),
+                            AId::Stroke => apply_opacity(&mut link, AId::StrokeOpacity, opacity),
                             _ => {}
                         }
                     }
                 }
             }
-            nodes.push(n.clone());
+
+            if can_remove_gradient(&n) {
+                nodes.push(n.clone());
+            }
         }
     }
 
@@ -298,6 +313,31 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
     utils::remove_nodes(&mut nodes);
 }
 
+// Gradient can be used by other gradients.
+fn can_remove_gradient(node: &Node) -> bool {
+    node.linked_nodes().all(|n| n.is_gradient() && !n.is_used())
+}
+
+// Children and referenced elements can have their own opacity.
+fn can_apply_opacity(node: &Node) -> bool {
+       !node.is_tag_name(EId::Use)
+    && !node.children().any(|n| n.is_svg_element())
+    && !utils::can_inherit_from_use(node, AId::FillOpacity)
+    && !utils::can_inherit_from_use(node, AId::StrokeOpacity)
+}
+
+// The stop opacity is multiplied by the fill/stroke opacity.
+fn apply_opacity(node: &mut Node, aid: AId, opacity: f64) {
+    let curr = node.parents_with_self().find(|n| n.has_attribute(aid)).and_then(|n| {
+        match n.attributes().get_value(aid) {
+            Some(&AttributeValue::Number(n)) => Some(n),
+            _ => None,
+        }
+    });
+
+    node.set_attribute((aid, curr.unwrap_or(1.0) * opacity));
+}
+
 fn find_link_attribute(node: &Node, link: &Node) -> Option<AId> {
     let attrs = node.attributes();
 
-- 
2.43.0


From 188f1f4236e78e9d6794551b6dc81976eb006b25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:19 +0000
Subject: [PATCH 17/64] fix: duplicated gradient was removed even when other
 gradient inherits it's attributes

---
 src/task/rm_dupl_defs/mod.rs | 12 +++++++++++-
 1 file changed, 11 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index 447a401..aa24063 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -110,7 +110,17 @@ fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
     let link2 = attrs2.get_value(AId::XlinkHref);
     if link1 != link2 {
         match (link1, link2) {
-            (Some(&AttributeValue::Link(ref n)), None) if n == node2 => {}
+            (Some(&AttributeValue::Link(ref n)), None) if n == node2 => {
+                // The second gradient will be removed,
+                // so the first one must not inherit it's attributes.
+                let is_inherited = attrs2.iter().any(|a| {
+                    a.visible && attrs1.iter().any(|a1| a1.name == a.name && !a1.visible)
+                });
+
+                if is_inherited {
+                    return false;
+                }
+            }
             (None, Some(&AttributeValue::Link(ref n))) if n == node1 => {}
             _ => return false,
         }
-- 
2.43.0


From ec574760a7faac6d5a6b294dd009d08d54b1d6b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:11 +0000
Subject: [PATCH 18/64] fix: merging of gradients with different types lost
 attributes inherited by other gradients

---
 src/task/merge_gradients.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/task/merge_gradients.rs b/src/task/merge_gradients.rs
index b0d46af..fb0d182 100644
--- a/src/task/merge_gradients.rs
+++ b/src/task/merge_gradients.rs
@@ -68,7 +68,12 @@ fn _merge_gradients(doc: &Document, nodes: &mut Vec<Node>) {
 
         if let Some(av) = node.attributes().get_value(AId::XlinkHref) {
             if let AttributeValue::Link(ref link) = *av {
-                if link.uses_count() == 1 && !link.has_attribute(AId::XlinkHref) {
+                // Attributes of a gradient with a different type will be lost,
+                // but other gradients can inherit them through the current one.
+                let is_lossy =    link.tag_id() != node.tag_id()
+                               && node.linked_nodes().any(|n| n.is_gradient());
+
+                if link.uses_count() == 1 && !link.has_attribute(AId::XlinkHref) && !is_lossy {
                     linked_node = link.clone();
                 } else {
                     continue;
-- 
2.43.0


From a41604137520e1f8c41cbc11d7c8a55f01103bf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:38 +0000
Subject: [PATCH 19/64] fix: keep the root svg and defs with display='none'

---
 src/task/rm_invisible_elems.rs | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index a6e571e..21ca63d 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -149,7 +149,8 @@ fn _process_display_attribute(parent: &Node, nodes: &mut Vec<Node>, is_any_remov
         let val = AttributeValue::PredefValue(ValueId::None);
         if    node.attributes().get_value(AId::Display) == Some(&val)
            && !node.is_used()
-           && !is_switch_child(&node) {
+           && !is_switch_child(&node)
+           && !is_required(&node) {
             // All children must be unused to.
             if !node.descendants().any(|n| n.is_used()) {
                 // TODO: ungroup used elements and remove unused
@@ -161,6 +162,11 @@ fn _process_display_attribute(parent: &Node, nodes: &mut Vec<Node>, is_any_remov
     }
 }
 
+// 'defs' can be used by other algorithms and document without the root 'svg' is invalid.
+fn is_required(node: &Node) -> bool {
+    node.is_tag_name(EId::Defs) || node.document().svg_element().as_ref() == Some(node)
+}
+
 // Remove 'filter' elements without children.
 fn process_empty_filter(doc: &Document, is_any_removed: &mut bool) {
     let mut nodes: Vec<Node> = doc.descendants()
-- 
2.43.0


From 56fdeb7019cfa4453b86e77899be16fd5efd9523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:38 +0000
Subject: [PATCH 20/64] fix: keep invalid clipPath children that are used
 elsewhere

---
 src/task/rm_invisible_elems.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 21ca63d..48125b4 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -66,7 +66,8 @@ fn process_clip_paths(doc: &Document, is_any_removed: &mut bool) {
     // Remove all invalid children.
     for node in doc.descendants().filter(|n| n.is_tag_name(EId::ClipPath)) {
         for child in node.children() {
-            if !is_valid_clip_path_elem(&child) {
+            // Invalid elements still can be used outside the 'clipPath'.
+            if !is_valid_clip_path_elem(&child) && !child.descendants().any(|n| n.is_used()) {
                 nodes.push(child.clone());
             }
         }
-- 
2.43.0


From d115fd8cb360725fd1d3013a469c2002123cbd73 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:38 +0000
Subject: [PATCH 21/64] fix: do not replace xlink:href to a gradient with a
 color

---
 src/task/rm_invisible_elems.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 48125b4..ba24914 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -350,8 +350,8 @@ fn find_link_attribute(node: &Node, link: &Node) -> Option<AId> {
 
     for (aid, attr) in attrs.iter_svg() {
         match attr.value {
-              AttributeValue::Link(ref n)
-            | AttributeValue::FuncLink(ref n) => {
+            // 'xlink:href' can't be replaced with a color.
+            AttributeValue::FuncLink(ref n) => {
                 if *n == *link {
                     return Some(aid);
                 }
-- 
2.43.0


From adf9cd48372b69873657d50e326f54eaabfde409 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:38 +0000
Subject: [PATCH 22/64] fix: removing users of empty clipPath and filter must
 not change other elements

---
 src/task/rm_invisible_elems.rs | 42 +++++++++++++++++++++++++++++-----
 1 file changed, 36 insertions(+), 6 deletions(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index ba24914..bafef95 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -87,11 +87,44 @@ fn process_clip_paths(doc: &Document, is_any_removed: &mut bool) {
     // Note, that all elements that uses this clip path also became invisible,
     // so we can remove them as well.
     while let Some(mut n) = clip_paths.pop() {
-        for mut link in n.linked_nodes().collect::<Vec<Node>>() {
+        remove_linked_nodes(&mut n);
+    }
+}
+
+// Removes elements that became invisible because of the linked 'clipPath' or 'filter'.
+//
+// The node itself will be removed only when all of them can be removed.
+fn remove_linked_nodes(node: &mut Node) {
+    for mut link in node.linked_nodes().collect::<Vec<Node>>() {
+        if can_be_removed(&link) {
             link.remove();
         }
-        n.remove();
     }
+
+    if !node.is_used() {
+        node.remove();
+    }
+}
+
+fn can_be_removed(node: &Node) -> bool {
+    // Only this elements can be clipped and filtered.
+    let is_valid =    node.is_shape()
+                   || node.is_tag_name(EId::A)
+                   || node.is_tag_name(EId::G)
+                   || node.is_tag_name(EId::Image)
+                   || node.is_tag_name(EId::Svg)
+                   || node.is_tag_name(EId::Switch)
+                   || node.is_tag_name(EId::Text)
+                   || node.is_tag_name(EId::Use);
+
+    // `<a>` can be a text content.
+    let is_text = node.parents().any(|n| n.is_tag_name(EId::Text));
+
+       is_valid
+    && !is_text
+    && !is_required(node)
+    && !is_switch_child(node)
+    && !node.descendants().any(|n| n.is_used())
 }
 
 fn is_valid_clip_path_elem(node: &Node) -> bool {
@@ -181,10 +214,7 @@ fn process_empty_filter(doc: &Document, is_any_removed: &mut bool) {
     // Note, that all elements that uses this filter also became invisible,
     // so we can remove them as well.
     for n in &mut nodes {
-        for mut link in n.linked_nodes().collect::<Vec<Node>>() {
-            link.remove();
-        }
-        n.remove();
+        remove_linked_nodes(n);
     }
 }
 
-- 
2.43.0


From 9acd4e41ca9b32037b71391175274d66dbfce66d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:38 +0000
Subject: [PATCH 23/64] fix: do not replace use with elements that are never
 rendered directly

---
 src/task/resolve_use.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index e7bb550..f7308fb 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -19,6 +19,7 @@
 use svgdom::{
     AttributeValue,
     Document,
+    ElementType,
     Length,
     Node,
     Transform,
@@ -45,8 +46,9 @@ pub fn resolve_use(doc: &Document) {
                     continue;
                 }
 
-                // 'symbol' elements can't be simply replaced.
-                if link.is_tag_name(EId::Symbol) {
+                // 'symbol' elements can't be simply replaced
+                // and other referenced elements are never rendered directly.
+                if link.is_referenced() {
                     continue;
                 }
 
-- 
2.43.0


From f9ab1d378c55c1088260d2dab0f3bbe78b990a7e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:43:38 +0000
Subject: [PATCH 24/64] fix: resolve inherited attributes of moved definitions

---
 src/task/group_defs.rs | 93 +++++++++++++++++++++++++++++++++++-------
 1 file changed, 79 insertions(+), 14 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 48a1e7f..7325043 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -17,13 +17,14 @@
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 use svgdom::{
+    Attribute,
     AttributeType,
     Document,
     ElementType,
     Node,
 };
 
-use task::short::EId;
+use task::short::{EId, AId};
 
 pub fn group_defs(doc: &mut Document) {
     // doc must contain 'svg' node, so we can safely unwrap.
@@ -35,6 +36,33 @@ pub fn group_defs(doc: &mut Document) {
         None => doc.create_element(EId::Defs),
     };
 
+    // Moved elements will lose attributes inherited from theirs parents,
+    // so we should resolve them before moving anything, including 'defs' itself.
+    {
+        let is_moved = match defs.parent() {
+            Some(parent) => parent != svg,
+            None => false,
+        };
+
+        // Moved elements should not inherit attributes from the main 'defs'.
+        let defs_attrs: Vec<AId> = defs.attributes().iter_svg()
+            .filter(|&(aid, attr)| is_inheritable(aid, attr))
+            .map(|(aid, _)| aid)
+            .collect();
+
+        let resolve_all = is_moved || !defs_attrs.is_empty();
+
+        for (_, node) in doc.descendants().svg() {
+            if node.is_referenced() && (resolve_all || node.parent() != Some(defs.clone())) {
+                resolve_attrs(&node);
+            }
+        }
+
+        for aid in defs_attrs {
+            defs.remove_attribute(aid);
+        }
+    }
+
     // Make 'defs' a first child of the 'svg'.
     if svg.first_child() != Some(defs.clone()) {
         defs.detach();
@@ -56,7 +84,6 @@ pub fn group_defs(doc: &mut Document) {
         }
 
         for n in &mut nodes {
-            resolve_attrs(n);
             n.detach();
             defs.append(n);
         }
@@ -100,31 +127,69 @@ pub fn group_defs(doc: &mut Document) {
 // so if we want to move this elements to the 'defs' - we should resolve attributes too.
 fn resolve_attrs(node: &Node) {
     match node.tag_id().unwrap() {
+        // 'symbol' inherits attributes only from the 'use' element.
           EId::ClipPath
         | EId::Marker
         | EId::Mask
-        | EId::Pattern
-        | EId::Symbol => {
-            let mut parent = Some(node.clone());
-            while let Some(p) = parent {
-                let attrs = p.attributes();
-                for (aid, attr) in attrs.iter_svg().filter(|&(_, a)| a.is_inheritable()) {
-                    for mut child in node.children() {
-                        if child.has_attribute(aid) {
-                            continue;
-                        }
+        | EId::Pattern => {
+            // Children can also be referenced by the 'use' element
+            // and then they should not inherit attributes from the current node.
+            let is_used = node.children().any(|n| n.is_used());
+
+            for (aid, attr) in inherited_attrs(node) {
+                // The mask luminance depends on its own color space.
+                let is_own = aid == AId::ColorInterpolation && node.is_tag_name(EId::Mask);
 
+                if is_used || is_own {
+                    node.clone().set_attribute(attr);
+                    continue;
+                }
+
+                for (_, mut child) in node.children().svg() {
+                    if !child.has_attribute(aid) {
                         child.set_attribute(attr.clone());
                     }
                 }
-
-                parent = p.parent();
             }
         }
+        EId::Filter => resolve_own_attrs(node, &[AId::ColorInterpolationFilters]),
+          EId::LinearGradient
+        | EId::RadialGradient => {
+            resolve_own_attrs(node, &[AId::ColorInterpolation, AId::ColorRendering]);
+        }
         _ => {}
     }
 }
 
+fn resolve_own_attrs(node: &Node, ids: &[AId]) {
+    let mut node = node.clone();
+    for (aid, attr) in inherited_attrs(&node) {
+        if ids.contains(&aid) {
+            node.set_attribute(attr);
+        }
+    }
+}
+
+fn is_inheritable(aid: AId, attr: &Attribute) -> bool {
+    // 'visibility' is inheritable too.
+    attr.is_inheritable() || aid == AId::Visibility
+}
+
+// Inheritable attributes from the node itself and from its parents.
+fn inherited_attrs(node: &Node) -> Vec<(AId, Attribute)> {
+    let mut list: Vec<(AId, Attribute)> = Vec::new();
+
+    for n in node.parents_with_self() {
+        for (aid, attr) in n.attributes().iter_svg() {
+            if is_inheritable(aid, attr) && !list.iter().any(|v| v.0 == aid) {
+                list.push((aid, attr.clone()));
+            }
+        }
+    }
+
+    list
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From a89275d2d40edc8215ff953bf8b2ca445898d3dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:12 +0000
Subject: [PATCH 25/64] fix: keep text decoration and non-inheritable text
 properties in place

---
 src/task/group_by_style.rs |  1 +
 src/task/resolve_use.rs    |  9 +++++++++
 src/task/ungroup_groups.rs | 26 ++++++++++++++++++++++++--
 3 files changed, 34 insertions(+), 2 deletions(-)

diff --git a/src/task/group_by_style.rs b/src/task/group_by_style.rs
index 8d4d52b..2e99a1a 100644
--- a/src/task/group_by_style.rs
+++ b/src/task/group_by_style.rs
@@ -31,6 +31,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId};
+use task::utils;
 
 // TODO: optimize, since Table is basically Vec<(Vec,Vec)>, which is not very efficient
 struct Table {
diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index f7308fb..0716ac8 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -94,6 +94,9 @@ pub fn resolve_use(doc: &Document) {
             match attr.id() {
                 Some(AId::X) | Some(AId::Y) | Some(AId::Width) | Some(AId::Height) |
                 Some(AId::Transform) => continue,
+                // This attributes are not inheritable and have no effect on 'use'.
+                Some(AId::AlignmentBaseline) | Some(AId::BaselineShift) | Some(AId::Clip) |
+                Some(AId::Overflow) | Some(AId::UnicodeBidi) => continue,
                 _ => {}
             }
 
@@ -149,6 +152,12 @@ fn can_be_replaced(node: &Node, link: &Node) -> bool {
         return false;
     }
 
+    // Text decoration is painted using properties of the element it was set on
+    // and the inheritance of the dominant baseline depends on the SVG version.
+    if node.has_attributes(&[AId::TextDecoration, AId::DominantBaseline]) {
+        return false;
+    }
+
     // 'display' is not inheritable too.
     if node.has_attribute(AId::Display) && link.has_attribute(AId::Display) {
         return false;
diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 5c0fdad..d32f4f0 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -17,6 +17,7 @@
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 use svgdom::{
+    AttributeType,
     AttributeValue,
     Document,
     Node,
@@ -106,6 +107,16 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
         return false;
     }
 
+    // Text decoration is painted using properties of the element it was set on.
+    if g.has_attribute(AId::TextDecoration) && g.children().any(|n| has_own_paint(&n)) {
+        return false;
+    }
+
+    // The inheritance of this attribute depends on the SVG version.
+    if g.has_attribute(AId::DominantBaseline) {
+        return false;
+    }
+
     if g.children().count() == 1 {
         let child = g.first_child().unwrap();
         // TODO: why child shouldn't be used?
@@ -146,6 +157,12 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
     false
 }
 
+fn has_own_paint(node: &Node) -> bool {
+    node.attributes().iter().any(|a| {
+        a.is_fill() || a.is_stroke() || a.has_id(AId::TextDecoration) || a.has_id(AId::Visibility)
+    })
+}
+
 fn ungroup_group(g: &mut Node) {
     for (aid, attr) in g.attributes().iter_svg() {
         for mut child in g.children() {
@@ -193,8 +210,13 @@ fn ungroup_group(g: &mut Node) {
             }
 
             // This attributes are not inheritable and have no effect on a group.
-            if aid == AId::Overflow || aid == AId::Clip {
-                continue;
+            match aid {
+                  AId::AlignmentBaseline
+                | AId::BaselineShift
+                | AId::Clip
+                | AId::Overflow
+                | AId::UnicodeBidi => continue,
+                _ => {}
             }
 
             if !child.has_attribute(aid) {
-- 
2.43.0


From ce585f60b6d6189fe7b1cfea278cd597637277d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:05:13 +0000
Subject: [PATCH 26/64] fix: do not move font-relative values to elements with
 another font size

---
 src/task/group_by_style.rs | 13 +++++++++-
 src/task/group_defs.rs     | 49 ++++++++++++++++++++++++++++++++++----
 src/task/utils.rs          | 24 ++++++++++++-------
 3 files changed, 71 insertions(+), 15 deletions(-)

diff --git a/src/task/group_by_style.rs b/src/task/group_by_style.rs
index 2e99a1a..e5a67c1 100644
--- a/src/task/group_by_style.rs
+++ b/src/task/group_by_style.rs
@@ -332,7 +332,9 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
     let mut node_list = Vec::with_capacity(16);
 
     // We can reuse an existing group only if all children are valid.
-    let mut is_all_children = true;
+    // Text decoration is painted using properties of the element it was set on,
+    // so we should not change them.
+    let mut is_all_children = !parent.has_attribute(AId::TextDecoration);
 
     // Collect nodes.
     // TODO: currently we ignore non-SVG elements, which is bad
@@ -348,6 +350,11 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
             continue;
         }
 
+        // The font size of the child can be relative to the parent's one.
+        if !utils::is_same_font_units(parent, &node) {
+            is_all_children = false;
+        }
+
         // Recursive processing.
         if node.has_children() {
             _group_by_style(&node, opt);
@@ -410,6 +417,7 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
 
     let nodes_count = node_list.len();
     let mut table = Table::new();
+    let has_font_size = node_list.iter().any(|n| n.has_attribute(AId::FontSize));
 
     // Fill table with attributes.
     for node in &node_list {
@@ -437,6 +445,9 @@ fn _group_by_style(parent: &Node, opt: &WriteOptions) {
                 }
             } else if !attr.is_inheritable() {
                 continue;
+            } else if has_font_size && aid != AId::FontSize && utils::is_font_relative(attr) {
+                // Font-relative units can be resolved using different fonts.
+                continue;
             }
 
             // Append only unique attributes.
diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index 7325043..bfd1ec1 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -19,12 +19,15 @@
 use svgdom::{
     Attribute,
     AttributeType,
+    AttributeValue,
     Document,
     ElementType,
+    Length,
     Node,
 };
 
-use task::short::{EId, AId};
+use task::short::{EId, AId, Unit};
+use task::utils;
 
 pub fn group_defs(doc: &mut Document) {
     // doc must contain 'svg' node, so we can safely unwrap.
@@ -134,13 +137,18 @@ fn resolve_attrs(node: &Node) {
         | EId::Pattern => {
             // Children can also be referenced by the 'use' element
             // and then they should not inherit attributes from the current node.
-            let is_used = node.children().any(|n| n.is_used());
+            // Text decoration is painted using properties of the current node too.
+            let set_own = node.children().any(|n| n.is_used()) ||
+                          node.has_attribute(AId::TextDecoration);
 
             for (aid, attr) in inherited_attrs(node) {
                 // The mask luminance depends on its own color space.
                 let is_own = aid == AId::ColorInterpolation && node.is_tag_name(EId::Mask);
 
-                if is_used || is_own {
+                // Font-relative values should be applied only once.
+                let is_font = aid == AId::FontSize || utils::is_font_relative(&attr);
+
+                if set_own || is_own || is_font {
                     node.clone().set_attribute(attr);
                     continue;
                 }
@@ -179,10 +187,28 @@ fn is_inheritable(aid: AId, attr: &Attribute) -> bool {
 fn inherited_attrs(node: &Node) -> Vec<(AId, Attribute)> {
     let mut list: Vec<(AId, Attribute)> = Vec::new();
 
+    let svg = node.document().svg_element();
+
     for n in node.parents_with_self() {
+        let is_main = Some(&n) == svg.as_ref();
+
         for (aid, attr) in n.attributes().iter_svg() {
-            if is_inheritable(aid, attr) && !list.iter().any(|v| v.0 == aid) {
-                list.push((aid, attr.clone()));
+            if !is_inheritable(aid, attr) {
+                continue;
+            }
+
+            // The main 'svg' element will be a parent anyway.
+            if is_main && aid == AId::FontSize {
+                continue;
+            }
+
+            match list.iter().position(|v| v.0 == aid) {
+                Some(idx) => {
+                    if aid == AId::FontSize {
+                        resolve_font_size(attr, &mut list[idx].1);
+                    }
+                }
+                None => list.push((aid, attr.clone())),
             }
         }
     }
@@ -190,6 +216,19 @@ fn inherited_attrs(node: &Node) -> Vec<(AId, Attribute)> {
     list
 }
 
+// Font size can be relative to the parent's one.
+fn resolve_font_size(parent: &Attribute, attr: &mut Attribute) {
+    if let AttributeValue::Length(parent_len) = parent.value {
+        if let AttributeValue::Length(ref mut len) = attr.value {
+            match len.unit {
+                Unit::Em => *len = Length::new(len.num * parent_len.num, parent_len.unit),
+                Unit::Percent => *len = Length::new(len.num * parent_len.num / 100.0, parent_len.unit),
+                _ => {}
+            }
+        }
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
diff --git a/src/task/utils.rs b/src/task/utils.rs
index 8d70e9d..c91d4d4 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -17,6 +17,7 @@
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 use svgdom::{
+    Attribute,
     AttributeValue,
     FuzzyEq,
     Length,
@@ -136,19 +137,24 @@ pub fn can_inherit_from_use(node: &Node, aid: AId) -> bool {
            .any(|n| n.parents_with_self().any(|n| n.has_attribute(aid)))
 }
 
+// Checks that the attribute value depends on the font size.
+pub fn is_font_relative(attr: &Attribute) -> bool {
+    match attr.value {
+        AttributeValue::Length(ref len) => is_relative(len),
+        AttributeValue::LengthList(ref list) => list.iter().any(is_relative),
+        _ => false,
+    }
+}
+
+fn is_relative(len: &Length) -> bool {
+    len.unit == Unit::Em || len.unit == Unit::Ex
+}
+
 // Checks that font-relative units have the same meaning on the parent element
 // and on the child element, so we can move attributes from one to another.
 pub fn is_same_font_units(parent: &Node, child: &Node) -> bool {
-    fn is_relative(len: &Length) -> bool {
-        len.unit == Unit::Em || len.unit == Unit::Ex
-    }
-
     fn has_relative(node: &Node) -> bool {
-        node.attributes().iter().any(|a| match a.value {
-            AttributeValue::Length(ref len) => is_relative(len),
-            AttributeValue::LengthList(ref list) => list.iter().any(is_relative),
-            _ => false,
-        })
+        node.attributes().iter().any(is_font_relative)
     }
 
     fn is_font_size_relative(node: &Node) -> bool {
-- 
2.43.0


From de201c6cf954539190db1ffab2677ceb7b8d985a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 27/64] fix: compare all attributes of feGaussianBlur

---
 src/task/rm_dupl_defs/fe_gaussian_blur.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/rm_dupl_defs/fe_gaussian_blur.rs b/src/task/rm_dupl_defs/fe_gaussian_blur.rs
index ec85772..ebea065 100644
--- a/src/task/rm_dupl_defs/fe_gaussian_blur.rs
+++ b/src/task/rm_dupl_defs/fe_gaussian_blur.rs
@@ -37,6 +37,11 @@ pub fn remove_dupl_fe_gaussian_blur(doc: &Document) {
 
     let fe_blur_attrs = [
         AId::StdDeviation,
+        AId::X,
+        AId::Y,
+        AId::Width,
+        AId::Height,
+        AId::ColorInterpolationFilters,
     ];
 
     let mut nodes = Vec::new();
-- 
2.43.0


From d4e8040e65776d7a650d41462a056100ab9024d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 28/64] fix: keep filters that inherit or lend their content or
 have an own input

---
 src/task/rm_invisible_elems.rs | 11 +++++++++++
 1 file changed, 11 insertions(+)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index bafef95..050086d 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -205,6 +205,7 @@ fn is_required(node: &Node) -> bool {
 fn process_empty_filter(doc: &Document, is_any_removed: &mut bool) {
     let mut nodes: Vec<Node> = doc.descendants()
                                   .filter(|n| n.is_tag_name(EId::Filter) && !n.has_children())
+                                  .filter(|n| !n.has_attribute(AId::XlinkHref))
                                   .collect();
 
     if !nodes.is_empty() {
@@ -225,6 +226,11 @@ fn process_fe_color_matrix(doc: &mut Document) {
             return false;
         }
 
+        // Other filter can use our children.
+        if node.linked_nodes().any(|n| n.is_tag_name(EId::Filter)) {
+            return false;
+        }
+
         if node.children().count() != 1 {
             return false;
         }
@@ -237,6 +243,11 @@ fn process_fe_color_matrix(doc: &mut Document) {
 
         let attrs = child.attributes();
 
+        // Input can be different from the filtered element.
+        if attrs.contains(AId::In) {
+            return false;
+        }
+
         // It's a very simple implementation since we do not parse matrix,
         // but it's enough to remove default feColorMatrix generated by Illustrator.
         if let Some(&AttributeValue::String(ref t)) = attrs.get_value(AId::Type) {
-- 
2.43.0


From eb1875099ecb00fdfdae324d609645f6391901e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 29/64] fix: do not move clip-path, mask and filter of a
 positioned use

---
 src/task/resolve_use.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index 0716ac8..26f96bb 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -19,6 +19,7 @@
 use svgdom::{
     AttributeValue,
     Document,
+    FuzzyEq,
     ElementType,
     Length,
     Node,
@@ -143,8 +144,15 @@ fn can_be_replaced(node: &Node, link: &Node) -> bool {
 
     // 'use' has it's own coordinate system.
     let links = [AId::ClipPath, AId::Mask, AId::Filter];
-    if node.has_attributes(&links) && link.has_attribute(AId::Transform) {
-        return false;
+    if node.has_attributes(&links) {
+        if link.has_attribute(AId::Transform) {
+            return false;
+        }
+
+        let (x, y) = get_pos(node);
+        if x.num.fuzzy_ne(&0.0) || y.num.fuzzy_ne(&0.0) {
+            return false;
+        }
     }
 
     // Relative units can be resolved using different fonts.
-- 
2.43.0


From 0b0e6e365420b50bec9871a35895aa739a39596c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:25 +0000
Subject: [PATCH 30/64] fix: keep default values of linked patterns and filters
 and position of filter primitives

---
 src/task/rm_default_attrs.rs | 16 +++++++++++++++-
 src/task/utils.rs            | 22 ++++++++++++++++++++++
 2 files changed, 37 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index db9b516..6ad99ce 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -22,6 +22,7 @@ use svgdom::{
     AttributeValue,
     Document,
     Length,
+    Node,
     ValueId,
 };
 
@@ -77,7 +78,7 @@ pub fn remove_default_attributes(doc: &Document) {
                         }
                     }
                 }
-            } else if is_default(attr, tag_name) {
+            } else if is_default(attr, tag_name) && !is_linked(&node, tag_name) {
                 // Check default values of an non-presentation attributes.
                 rm_list.push(aid);
             }
@@ -95,6 +96,14 @@ pub fn remove_default_attributes(doc: &Document) {
     }
 }
 
+// A default value can override a value from the linked element.
+fn is_linked(node: &Node, tag_name: EId) -> bool {
+    match tag_name {
+        EId::Filter | EId::Pattern => node.has_attribute(AId::XlinkHref),
+        _ => false,
+    }
+}
+
 fn is_default(attr: &Attribute, tag_name: EId) -> bool {
     // Process only popular and simple attributes.
 
@@ -116,6 +125,11 @@ fn is_default(attr: &Attribute, tag_name: EId) -> bool {
                 return false;
             }
 
+            // Default filter primitive position is a position of the filter region.
+            if utils::is_filter_primitive(tag_name) {
+                return false;
+            }
+
             if tag_name == EId::Mask || tag_name == EId::Filter {
                 if attr.value == AttributeValue::from((-10.0, Unit::Percent)) {
                     return true;
diff --git a/src/task/utils.rs b/src/task/utils.rs
index c91d4d4..e0732ec 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -137,6 +137,28 @@ pub fn can_inherit_from_use(node: &Node, aid: AId) -> bool {
            .any(|n| n.parents_with_self().any(|n| n.has_attribute(aid)))
 }
 
+pub fn is_filter_primitive(tag_name: EId) -> bool {
+    match tag_name {
+          EId::FeBlend
+        | EId::FeColorMatrix
+        | EId::FeComponentTransfer
+        | EId::FeComposite
+        | EId::FeConvolveMatrix
+        | EId::FeDiffuseLighting
+        | EId::FeDisplacementMap
+        | EId::FeFlood
+        | EId::FeGaussianBlur
+        | EId::FeImage
+        | EId::FeMerge
+        | EId::FeMorphology
+        | EId::FeOffset
+        | EId::FeSpecularLighting
+        | EId::FeTile
+        | EId::FeTurbulence => true,
+        _ => false,
+    }
+}
+
 // Checks that the attribute value depends on the font size.
 pub fn is_font_relative(attr: &Attribute) -> bool {
     match attr.value {
-- 
2.43.0


From 5949466cd86e57a78a7d6934e6a889b384aa50c4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:05 +0000
Subject: [PATCH 31/64] fix: keep attributes that can't be joined into the
 style attribute

---
 src/task/join_style_attrs.rs | 29 +++++++++++++++++++++++------
 1 file changed, 23 insertions(+), 6 deletions(-)

diff --git a/src/task/join_style_attrs.rs b/src/task/join_style_attrs.rs
index 1d2cbd6..a38bab0 100644
--- a/src/task/join_style_attrs.rs
+++ b/src/task/join_style_attrs.rs
@@ -17,7 +17,9 @@
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 use svgdom::{
+    Attribute,
     AttributeType,
+    AttributeValue,
     Document,
     WriteBuffer,
     WriteOptions,
@@ -36,20 +38,20 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
     for (_, mut node) in doc.descendants().svg() {
         let count = {
             let attrs = node.attributes();
-            attrs.iter().filter(|a| a.is_presentation() && a.visible).count()
+            attrs.iter().filter(|a| can_join(a)).count()
         };
 
+        if count == 0 {
+            continue;
+        }
+
         // 5 - is an amount of attributes when style notation is becoming more efficient than
         // split attributes.
         if (mode == StyleJoinMode::Some && count > 5) || mode == StyleJoinMode::All {
             let mut attrs = node.attributes_mut();
             let mut ids = Vec::new();
             let mut style = Vec::new();
-            for (aid, attr) in attrs.iter_svg().filter(|&(_, a)| a.is_presentation()) {
-                if !attr.visible {
-                    continue;
-                }
-
+            for (aid, attr) in attrs.iter_svg().filter(|&(_, a)| can_join(a)) {
                 style.extend_from_slice(aid.name().as_bytes());
                 style.push(b':');
                 attr.value.write_buf_opt(opt, &mut style);
@@ -72,6 +74,21 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
     }
 }
 
+fn can_join(attr: &Attribute) -> bool {
+    if !attr.is_presentation() || !attr.visible {
+        return false;
+    }
+
+    // Empty, quoted and escaped values have a different meaning, or no meaning at all,
+    // inside the 'style' attribute.
+    match attr.value {
+        AttributeValue::String(ref s) => {
+            !s.trim().is_empty() && !s.contains(|c| "'\"&<>;:{}!/\\".contains(c))
+        }
+        _ => true,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 5612d854f94de0403402fc4c9a8e8b69d14ed03e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:34:05 +0000
Subject: [PATCH 32/64] fix: keep namespace declarations of the preserved
 non-SVG elements

---
 src/cleaner.rs             | 36 +++++++++++++++++++++++++++++++++++-
 src/task/ungroup_groups.rs | 13 +++++++++++++
 2 files changed, 48 insertions(+), 1 deletion(-)

diff --git a/src/cleaner.rs b/src/cleaner.rs
index 0eec548..ef53491 100644
--- a/src/cleaner.rs
+++ b/src/cleaner.rs
@@ -27,6 +27,7 @@ use svgdom::{
     self,
     Document,
     ElementId,
+    Name,
     ParseOptions,
     WriteBuffer,
     WriteOptions,
@@ -57,7 +58,40 @@ pub fn load_file(path: &str) -> Result<String, io::Error> {
 }
 
 pub fn parse_data(data: &str, opt: &ParseOptions) -> Result<Document, svgdom::Error> {
-    Document::from_str_with_opt(data, opt)
+    if opt.parse_unknown_elements && !opt.parse_unknown_attributes {
+        // Prefixed elements are useless without namespaces declarations,
+        // so we have to parse and filter unknown attributes manually.
+        let opt = ParseOptions { parse_unknown_attributes: true, ..*opt };
+        let doc = Document::from_str_with_opt(data, &opt)?;
+        remove_unknown_attributes(&doc);
+        Ok(doc)
+    } else {
+        Document::from_str_with_opt(data, opt)
+    }
+}
+
+// Removes all non-SVG attributes except namespaces used by non-SVG elements.
+fn remove_unknown_attributes(doc: &Document) {
+    let mut namespaces = Vec::new();
+    for node in doc.descendants() {
+        if let Some(Name::Name(ref name)) = node.tag_name().as_ref().map(|n| (**n).clone()) {
+            let ns = match name.find(':') {
+                Some(pos) => format!("xmlns:{}", &name[..pos]),
+                None => "xmlns".to_string(),
+            };
+
+            if !namespaces.contains(&ns) {
+                namespaces.push(ns);
+            }
+        }
+    }
+
+    for mut node in doc.descendants() {
+        node.attributes_mut().retain(|a| match a.name {
+            Name::Id(_) => true,
+            Name::Name(ref name) => namespaces.contains(name),
+        });
+    }
 }
 
 pub fn clean_doc(
diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index d32f4f0..70e66b6 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -20,6 +20,7 @@ use svgdom::{
     AttributeType,
     AttributeValue,
     Document,
+    Name,
     Node,
     ValueId,
 };
@@ -97,6 +98,11 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
         return false;
     }
 
+    // Children can use namespaces declared on the group.
+    if has_namespace(g) {
+        return false;
+    }
+
     // A nested 'svg' doesn't support transform.
     if g.has_attribute(AId::Transform) && g.children().any(|n| n.is_tag_name(EId::Svg)) {
         return false;
@@ -157,6 +163,13 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
     false
 }
 
+fn has_namespace(node: &Node) -> bool {
+    node.attributes().iter().any(|a| match a.name {
+        Name::Name(ref name) => name.starts_with("xmlns"),
+        Name::Id(_) => false,
+    })
+}
+
 fn has_own_paint(node: &Node) -> bool {
     node.attributes().iter().any(|a| {
         a.is_fill() || a.is_stroke() || a.has_id(AId::TextDecoration) || a.has_id(AId::Visibility)
-- 
2.43.0


From ef4c0591d8e21695425acf5c8644b30ce82acc3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:30 +0000
Subject: [PATCH 33/64] fix: do not truncate the input file when copying it on
 error

---
 src/main.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index 8f0c098..a369f0c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -21,7 +21,6 @@ extern crate log;
 extern crate fern;
 
 use std::fmt;
-use std::fs;
 use std::str;
 use std::path::Path;
 use std::io::{
@@ -106,8 +105,11 @@ fn main() {
             let inf = in_file.unwrap();
             let outf = out_file.unwrap();
             // Copy a file only when paths are different.
+            //
+            // Use an already loaded data, because different paths can still lead
+            // to the same file, and copying a file to itself will truncate it.
             if inf != outf {
-                try_msg!(fs::copy(inf, outf));
+                try_msg!(cleaner::save_file(raw.as_bytes(), outf));
             }
         }
 
@@ -115,7 +117,7 @@ fn main() {
     };
 
     let input_size = raw.len();
-    let mut buf = raw.into_bytes();
+    let mut buf = raw.as_bytes().to_vec();
     let mut prev_size = 0;
 
     loop {
-- 
2.43.0


From 1d7b19fb712f41e87015cf2ed21904f9f0531854 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:31 +0000
Subject: [PATCH 34/64] fix: report errors of buffered output and do not save
 anything after a failed copy

---
 src/cleaner.rs | 5 ++++-
 src/main.rs    | 3 +--
 2 files changed, 5 insertions(+), 3 deletions(-)

diff --git a/src/cleaner.rs b/src/cleaner.rs
index ef53491..c6992b7 100644
--- a/src/cleaner.rs
+++ b/src/cleaner.rs
@@ -286,7 +286,10 @@ pub fn write_buffer(doc: &Document, opt: &WriteOptions, buf: &mut Vec<u8>) {
 }
 
 pub fn write_stdout(data: &[u8]) -> Result<(), io::Error> {
-    io::stdout().write_all(data)?;
+    let mut stdout = io::stdout();
+    stdout.write_all(data)?;
+    // Stdout is buffered, so an error can be detected only after flush.
+    stdout.flush()?;
     Ok(())
 }
 
diff --git a/src/main.rs b/src/main.rs
index a369f0c..b4f591f 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -141,11 +141,10 @@ fn main() {
             Err(e) => {
                 writeln!(stderr(), "{}.", e.full_chain()).unwrap();
                 on_err();
-                break;
+                return;
             }
         }
 
-
         // Clear buffer.
         //
         // We are reusing the same buffer for input and output data.
-- 
2.43.0


From 7fd84827d638486c9bff9f70928310c34e2683fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:32 +0000
Subject: [PATCH 35/64] fix: --no-defaults should disable
 --remove-unresolved-classes too

---
 src/cli.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index a0d445f..6415bd3 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -431,7 +431,7 @@ pub fn gen_parse_options(args: &ArgMatches) -> ParseOptions {
         parse_unknown_elements: true,
         parse_unknown_attributes: true,
         parse_px_unit: false,
-        skip_unresolved_classes: true,
+        skip_unresolved_classes: false,
         skip_invalid_attributes: false,
         skip_invalid_css: false,
         skip_paint_fallback: false,
-- 
2.43.0


From 4f57e36c5afc4e1759dd34a5e9760197eccc664a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:40:33 +0000
Subject: [PATCH 36/64] fix: check dependencies of options that are actually
 set with --no-defaults

---
 src/cli.rs | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/cli.rs b/src/cli.rs
index 6415bd3..be31b07 100644
--- a/src/cli.rs
+++ b/src/cli.rs
@@ -351,7 +351,10 @@ fn get_flag(args: &ArgMatches, key: Key) -> bool {
 pub fn check_values(args: &ArgMatches) -> bool {
 
     fn check_value(args: &ArgMatches, flag: Key, dep: Key) -> bool {
-        if !get_flag(args, flag) && get_flag(args, dep) {
+        // Disabled by '--no-defaults' flags are 'false'.
+        let flags = Flags::new(args);
+        let is_on = |key| flags._resolve(key).unwrap_or(false);
+        if !is_on(flag) && is_on(dep) {
             writeln!(stderr(), "Error: You can use '--{}=true' only with '--{}=true'.",
                      KEYS[dep], KEYS[flag]).unwrap();
             return false;
-- 
2.43.0


From 810336f39c38163540b048f4501bcbee83935981 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:31:59 +0000
Subject: [PATCH 37/64] fix: multipass should never make a cleaned file bigger

---
 src/main.rs | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/src/main.rs b/src/main.rs
index b4f591f..0ebf06c 100644
--- a/src/main.rs
+++ b/src/main.rs
@@ -21,6 +21,7 @@ extern crate log;
 extern crate fern;
 
 use std::fmt;
+use std::mem;
 use std::str;
 use std::path::Path;
 use std::io::{
@@ -145,12 +146,8 @@ fn main() {
             }
         }
 
-        // Clear buffer.
-        //
-        // We are reusing the same buffer for input and output data.
-        buf.clear();
-
         // Write buffer.
+        let prev_buf = mem::replace(&mut buf, Vec::new());
         cleaner::write_buffer(&doc, &write_opt, &mut buf);
 
         if !args.is_present(KEYS[Key::Multipass]) {
@@ -163,6 +160,14 @@ fn main() {
             break;
         }
 
+        // An already cleaned file can become bigger. Keep the smaller one.
+        //
+        // This also guarantees that the loop will end.
+        if prev_size != 0 && buf.len() > prev_size {
+            buf = prev_buf;
+            break;
+        }
+
         prev_size = buf.len();
     }
 
-- 
2.43.0


From daf31b8ad0b4b236067347037fb2221ca1ddc66e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:01 +0000
Subject: [PATCH 38/64] fix: joining style attributes left dangling links that
 made dropping of a document panic

---
 src/task/join_style_attrs.rs | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/src/task/join_style_attrs.rs b/src/task/join_style_attrs.rs
index a38bab0..2997bba 100644
--- a/src/task/join_style_attrs.rs
+++ b/src/task/join_style_attrs.rs
@@ -48,10 +48,9 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
         // 5 - is an amount of attributes when style notation is becoming more efficient than
         // split attributes.
         if (mode == StyleJoinMode::Some && count > 5) || mode == StyleJoinMode::All {
-            let mut attrs = node.attributes_mut();
             let mut ids = Vec::new();
             let mut style = Vec::new();
-            for (aid, attr) in attrs.iter_svg().filter(|&(_, a)| can_join(a)) {
+            for (aid, attr) in node.attributes().iter_svg().filter(|&(_, a)| can_join(a)) {
                 style.extend_from_slice(aid.name().as_bytes());
                 style.push(b':');
                 attr.value.write_buf_opt(opt, &mut style);
@@ -63,12 +62,11 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
 
             // Unwrap can't fail.
             let style_str = String::from_utf8(style).unwrap();
-            attrs.insert_from(AId::Style, style_str);
+            node.attributes_mut().insert_from(AId::Style, style_str);
 
             for id in ids {
-                // Use "private" method, because we breaking linking on purpose.
-                // Default 'remove()' will panic here.
-                attrs.remove_impl(id);
+                // Nodes should be unlinked too. A dangling link will panic later.
+                node.remove_attribute(id);
             }
         }
     }
-- 
2.43.0


From 84b37ffde356cb4e04204332096e11039991660d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:44:17 +0000
Subject: [PATCH 39/64] fix: only paints can be replaced with a color of a
 gradient

---
 src/task/rm_invisible_elems.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 050086d..fdebaf6 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -390,6 +390,11 @@ fn find_link_attribute(node: &Node, link: &Node) -> Option<AId> {
     let attrs = node.attributes();
 
     for (aid, attr) in attrs.iter_svg() {
+        // Only a paint can be replaced with a color.
+        if aid != AId::Fill && aid != AId::Stroke {
+            continue;
+        }
+
         match attr.value {
             // 'xlink:href' can't be replaced with a color.
             AttributeValue::FuncLink(ref n) => {
-- 
2.43.0


From 941d29bedad75163c48759c53516920001c5c30b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:54:20 +0000
Subject: [PATCH 40/64] fix: remove default refX, refY and stdDeviation

---
 src/task/rm_default_attrs.rs | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index 6ad99ce..f551d38 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -191,7 +191,7 @@ fn is_default(attr: &Attribute, tag_name: EId) -> bool {
         }
         AId::RefX | AId::RefY => {
             if tag_name == EId::Marker {
-                if attr.value == AttributeValue::from((0.0, Unit::None)) {
+                if is_zero_str(attr) {
                     return true;
                 }
             }
@@ -204,7 +204,7 @@ fn is_default(attr: &Attribute, tag_name: EId) -> bool {
             }
         }
         AId::StdDeviation => {
-            if attr.value == AttributeValue::from((0.0, Unit::None)) {
+            if is_zero_str(attr) {
                 return true;
             }
         }
@@ -251,6 +251,14 @@ fn is_default(attr: &Attribute, tag_name: EId) -> bool {
     false
 }
 
+// Some attributes are stored as is.
+fn is_zero_str(attr: &Attribute) -> bool {
+    match attr.value {
+        AttributeValue::String(ref s) => s.trim() == "0",
+        _ => false,
+    }
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From b61639283c11350b5057065d96ef94ca17b6d697 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:56:40 +0000
Subject: [PATCH 41/64] fix: remove duplicated definitions that became equal
 after relinking

---
 src/task/rm_dupl_defs/mod.rs | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index aa24063..09f2e95 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -45,6 +45,16 @@ macro_rules! check_attr {
 fn rm_loop<F>(nodes: &mut Vec<Node>, cmp: F)
     where F : Fn(&Node, &Node) -> bool
 {
+    // Relinking can make other elements equal.
+    while rm_loop_impl(nodes, &cmp) {}
+}
+
+// Returns `true` when any node was removed.
+fn rm_loop_impl<F>(nodes: &mut Vec<Node>, cmp: &F) -> bool
+    where F : Fn(&Node, &Node) -> bool
+{
+    let orig_len = nodes.len();
+
     let mut link_attrs: Vec<(Node, AId, Node)> = Vec::new();
 
     let mut len = nodes.len();
@@ -96,6 +106,8 @@ fn rm_loop<F>(nodes: &mut Vec<Node>, cmp: F)
 
         i1 += 1;
     }
+
+    len != orig_len
 }
 
 fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
-- 
2.43.0


From 403d6be89606722136a16796e1056d0163ebd828 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:59:08 +0000
Subject: [PATCH 42/64] fix: ungroup groups with an identity transform

---
 src/task/ungroup_groups.rs | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index 70e66b6..e7490c6 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -17,6 +17,7 @@
 // 51 Franklin Street, Fifth Floor, Boston, MA 02110-1301 USA.
 
 use svgdom::{
+    Attribute,
     AttributeType,
     AttributeValue,
     Document,
@@ -140,7 +141,7 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
         return false;
     }
 
-    if g.attributes().is_empty() {
+    if g.attributes().iter().all(|a| is_default_transform(a)) {
         // Group without any attributes.
         return true;
     }
@@ -163,6 +164,13 @@ fn can_ungroup(parent: &Node, g: &Node) -> bool {
     false
 }
 
+fn is_default_transform(attr: &Attribute) -> bool {
+    match attr.value {
+        AttributeValue::Transform(ts) => attr.has_id(AId::Transform) && ts.is_default(),
+        _ => false,
+    }
+}
+
 fn has_namespace(node: &Node) -> bool {
     node.attributes().iter().any(|a| match a.name {
         Name::Name(ref name) => name.starts_with("xmlns"),
-- 
2.43.0


From 39add53c446a32fbb8dc44498889374deb5c4682 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:16:04 +0000
Subject: [PATCH 43/64] fix: gradients can contain not only stops

---
 src/task/fix_attrs.rs              |  3 ++-
 src/task/merge_gradients.rs        |  4 ++--
 src/task/regroup_gradient_stops.rs |  9 ++++-----
 src/task/resolve_gradients.rs      |  3 ++-
 src/task/rm_dupl_defs/mod.rs       | 13 ++++++-------
 src/task/rm_invalid_stops.rs       |  9 +++------
 src/task/rm_invisible_elems.rs     |  6 +++---
 src/task/utils.rs                  |  7 +++++++
 8 files changed, 29 insertions(+), 25 deletions(-)

diff --git a/src/task/fix_attrs.rs b/src/task/fix_attrs.rs
index 2c16763..613acba 100644
--- a/src/task/fix_attrs.rs
+++ b/src/task/fix_attrs.rs
@@ -25,6 +25,7 @@ use svgdom::{
 };
 
 use task::short::{AId, EId, Unit};
+use task::utils;
 
 pub fn fix_invalid_attributes(doc: &Document) {
     for (id, mut node) in doc.descendants().svg() {
@@ -211,7 +212,7 @@ pub fn fix_stop_attributes(node: &Node) {
 
     let mut prev_offset = 0.0;
 
-    for mut child in node.children() {
+    for mut child in utils::stops(node) {
         let av = child.attributes().get_value(AId::Offset).cloned();
 
         let mut offset = match av {
diff --git a/src/task/merge_gradients.rs b/src/task/merge_gradients.rs
index fb0d182..ca86366 100644
--- a/src/task/merge_gradients.rs
+++ b/src/task/merge_gradients.rs
@@ -86,9 +86,9 @@ fn _merge_gradients(doc: &Document, nodes: &mut Vec<Node>) {
             continue;
         }
 
-        if !node.has_children() {
+        if utils::stops(&node).is_empty() {
             // Append 'stop' elements only when we don't have any before.
-            while let Some(mut child) = linked_node.first_child() {
+            for mut child in utils::stops(&linked_node) {
                 child.detach();
                 node.append(&child);
             }
diff --git a/src/task/regroup_gradient_stops.rs b/src/task/regroup_gradient_stops.rs
index b74a65f..e6a7658 100644
--- a/src/task/regroup_gradient_stops.rs
+++ b/src/task/regroup_gradient_stops.rs
@@ -23,11 +23,12 @@ use svgdom::{
 };
 
 use task::short::{EId, AId};
+use task::utils;
 
 pub fn regroup_gradient_stops(doc: &mut Document) {
     let mut nodes: Vec<Node> = doc.descendants()
         .filter(|n| n.is_gradient())
-        .filter(|n| n.has_children())
+        .filter(|n| !utils::stops(n).is_empty())
         .filter(|n| !n.has_attribute(AId::XlinkHref))
         .collect();
 
@@ -59,8 +60,7 @@ pub fn regroup_gradient_stops(doc: &mut Document) {
             let new_id = gen_id(doc, "lg");
             new_lg.set_id(new_id);
 
-            while node1.has_children() {
-                let mut c = node1.first_child().unwrap();
+            for mut c in utils::stops(&node1) {
                 c.detach();
                 new_lg.append(&c);
             }
@@ -69,8 +69,7 @@ pub fn regroup_gradient_stops(doc: &mut Document) {
             node1.insert_before(&new_lg);
 
             for jn in &mut join_nodes {
-                while jn.has_children() {
-                    let mut c = jn.first_child().unwrap();
+                for mut c in utils::stops(jn) {
                     c.remove();
                 }
                 jn.set_attribute((AId::XlinkHref, new_lg.clone()));
diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index e0bc491..057a182 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -29,6 +29,7 @@ use svgdom::{
 };
 
 use task::short::{EId, AId};
+use task::utils;
 
 use error::{
     ErrorKind,
@@ -114,7 +115,7 @@ pub fn resolve_radial_gradient_attributes(doc: &Document) {
 /// which is not a first child of a gradient, didn't have an `offset` attribute.
 pub fn resolve_stop_attributes(doc: &Document) -> Result<()> {
     for gradient in doc.descendants().filter(|n| n.is_gradient()) {
-        for (idx, mut node) in gradient.children().enumerate() {
+        for (idx, mut node) in utils::stops(&gradient).into_iter().enumerate() {
             let av = node.attributes().get_value(AId::Offset).cloned();
             if let Some(AttributeValue::Length(l)) = av {
                 if l.unit == LengthUnit::Percent {
diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index 09f2e95..3ee80cb 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -23,6 +23,7 @@ use svgdom::{
 };
 
 use task::short::AId;
+use task::utils;
 
 pub use self::linear_gradient::remove_dupl_linear_gradients;
 pub use self::radial_gradient::remove_dupl_radial_gradients;
@@ -148,20 +149,18 @@ fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
 }
 
 pub fn is_equal_stops(node1: &Node, node2: &Node) -> bool {
-    let children_count1 = node1.children().count();
+    let stops1 = utils::stops(node1);
+    let stops2 = utils::stops(node2);
 
-    if children_count1 != node2.children().count() {
+    if stops1.len() != stops2.len() {
         return false;
     }
 
-    if children_count1 == 0 {
+    if stops1.is_empty() {
         return true;
     }
 
-    let iter1 = node1.children();
-    let iter2 = node2.children();
-
-    for (mut c1, mut c2) in iter1.zip(iter2) {
+    for (mut c1, mut c2) in stops1.into_iter().zip(stops2) {
         let attrs1 = c1.attributes_mut();
         let attrs2 = c2.attributes_mut();
 
diff --git a/src/task/rm_invalid_stops.rs b/src/task/rm_invalid_stops.rs
index 0f3df17..4dbdc90 100644
--- a/src/task/rm_invalid_stops.rs
+++ b/src/task/rm_invalid_stops.rs
@@ -28,12 +28,11 @@ pub fn remove_invalid_stops(doc: &Document) {
     let mut nodes = Vec::new();
 
     let iter = doc.descendants()
-                  .filter(|n| n.is_gradient())
-                  .filter(|n| n.has_children());
+                  .filter(|n| n.is_gradient());
     for node in iter {
-        let mut prev_child = node.first_child().unwrap();
+        for pair in utils::stops(&node).windows(2) {
+            let (prev_child, child) = (&pair[0], &pair[1]);
 
-        for child in node.children().skip(1) {
             {
                 let attrs1 = prev_child.attributes();
                 let attrs2 = child.attributes();
@@ -45,8 +44,6 @@ pub fn remove_invalid_stops(doc: &Document) {
                     nodes.push(child.clone());
                 }
             }
-
-            prev_child = child.clone();
         }
     }
 
diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index fdebaf6..d6f5694 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -284,7 +284,7 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
         // Gradient without children and link to other gradient is pointless.
         let iter = doc.descendants()
                       .filter(|n| n.is_gradient())
-                      .filter(|n| !n.has_children() && !n.has_attribute(AId::XlinkHref));
+                      .filter(|n| utils::stops(n).is_empty() && !n.has_attribute(AId::XlinkHref));
 
         for n in iter {
             for mut link in n.linked_nodes().collect::<Vec<Node>>() {
@@ -312,10 +312,10 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
         // defined for that gradient stop.'
         let iter = doc.descendants()
                       .filter(|n| n.is_gradient())
-                      .filter(|n| n.children().count() == 1 && !n.has_attribute(AId::XlinkHref));
+                      .filter(|n| utils::stops(n).len() == 1 && !n.has_attribute(AId::XlinkHref));
 
         for n in iter {
-            let stop = n.first_child().unwrap();
+            let stop = utils::stops(&n)[0].clone();
 
             let color = match stop.attributes().get_value(AId::StopColor) {
                 Some(&AttributeValue::Color(c)) => c,
diff --git a/src/task/utils.rs b/src/task/utils.rs
index e0732ec..c8de293 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -26,6 +26,13 @@ use svgdom::{
 
 use task::short::{AId, EId, Unit};
 
+/// Returns all `stop` children of the gradient.
+///
+/// A gradient can also contain comments and descriptive elements.
+pub fn stops(node: &Node) -> Vec<Node> {
+    node.children().filter(|n| n.is_tag_name(EId::Stop)).collect()
+}
+
 pub fn recalc_stroke(node: &mut Node, scale_factor: f64) {
     recalc_stroke_num(node, AId::StrokeWidth, scale_factor);
     recalc_stroke_dasharray(node, scale_factor);
-- 
2.43.0


From 06b5b8bf7b83a39fbed0e83832b574dd80d5cb11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:15 +0000
Subject: [PATCH 44/64] fix: non-SVG attributes of shapes are removed by
 remove-needless-attributes

---
 src/task/rm_needless_attrs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_needless_attrs.rs b/src/task/rm_needless_attrs.rs
index 4c26415..b86ffe8 100644
--- a/src/task/rm_needless_attrs.rs
+++ b/src/task/rm_needless_attrs.rs
@@ -143,7 +143,9 @@ fn is_basic_shapes_attr(a: &Attribute) -> bool {
     // List of common basic shapes attributes.
     // https://www.w3.org/TR/SVG/shapes.html#RectElement
 
-       a.is_conditional_processing()
+       // Non-SVG attributes are processed by 'remove_nonsvg_attributes'.
+       !a.is_svg()
+    || a.is_conditional_processing()
     || a.is_core()
     || a.is_graphical_event()
     || a.is_presentation()
-- 
2.43.0


From 720ad477036b6f1e977c35dc5864bf80cfd3d081 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:15 +0000
Subject: [PATCH 45/64] fix: comments inside defs are removed by
 remove-unused-defs

---
 src/task/rm_unused_defs.rs | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/src/task/rm_unused_defs.rs b/src/task/rm_unused_defs.rs
index c05084c..713cafa 100644
--- a/src/task/rm_unused_defs.rs
+++ b/src/task/rm_unused_defs.rs
@@ -19,6 +19,7 @@
 use svgdom::{
     Document,
     Node,
+    NodeType,
 };
 
 use task::short::EId;
@@ -39,6 +40,11 @@ fn remove_unused_defs_impl(defs: &mut Node) -> bool {
     let mut rm_nodes = Vec::new();
 
     for node in defs.children() {
+        // Only elements can be unused.
+        if node.node_type() == NodeType::Comment {
+            continue;
+        }
+
         if !node.is_used() && !is_font_node(&node) {
             // Nodes outside defs we have to move to main 'defs' node, not to parent,
             // because otherwise they became renderable.
@@ -69,13 +75,15 @@ fn is_font_node(node: &Node) -> bool {
 }
 
 fn ungroup_children(node: &Node, mv_nodes: &mut Vec<Node>, rm_nodes: &mut Vec<Node>) {
-    if node.has_children() {
-        // Element can be unused, but elements in it can be,
-        // so we need to move them to parent element before removing.
-        for c in node.children() {
-            mv_nodes.push(c.clone());
-        }
-    } else {
+    // Element can be unused, but elements in it can be,
+    // so we need to move them to parent element before removing.
+    let mut has_elements = false;
+    for c in node.children().filter(|n| n.node_type() == NodeType::Element) {
+        mv_nodes.push(c.clone());
+        has_elements = true;
+    }
+
+    if !has_elements {
         rm_nodes.push(node.clone());
     }
 }
-- 
2.43.0


From 5a06d367b238c90fe25c8482d19f771475394de2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:43:15 +0000
Subject: [PATCH 46/64] fix: comments, titles and foreign elements of a
 clipPath are removed by remove-invisible-elements

---
 src/task/rm_invisible_elems.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index d6f5694..2cdc158 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -66,6 +66,11 @@ fn process_clip_paths(doc: &Document, is_any_removed: &mut bool) {
     // Remove all invalid children.
     for node in doc.descendants().filter(|n| n.is_tag_name(EId::ClipPath)) {
         for child in node.children() {
+            // Comments, descriptive and non-SVG elements are processed by other tasks.
+            if is_descriptive(&child) {
+                continue;
+            }
+
             // Invalid elements still can be used outside the 'clipPath'.
             if !is_valid_clip_path_elem(&child) && !child.descendants().any(|n| n.is_used()) {
                 nodes.push(child.clone());
@@ -74,7 +79,7 @@ fn process_clip_paths(doc: &Document, is_any_removed: &mut bool) {
 
         utils::remove_nodes(&mut nodes);
 
-        if !node.has_children() {
+        if node.children().all(|n| is_descriptive(&n)) {
             clip_paths.push(node.clone());
         }
     }
@@ -127,6 +132,13 @@ fn can_be_removed(node: &Node) -> bool {
     && !node.descendants().any(|n| n.is_used())
 }
 
+fn is_descriptive(node: &Node) -> bool {
+       !node.is_svg_element()
+    || node.is_tag_name(EId::Title)
+    || node.is_tag_name(EId::Desc)
+    || node.is_tag_name(EId::Metadata)
+}
+
 fn is_valid_clip_path_elem(node: &Node) -> bool {
     // https://www.w3.org/TR/SVG/masking.html#EstablishingANewClippingPath
 
-- 
2.43.0


From 6fdf844d29f06fa37c9a99c74a61b71a68324d46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:07:26 +0000
Subject: [PATCH 47/64] fix: LineTo segments become HorizontalLineTo and
 VerticalLineTo without convert-segments

---
 src/task/paths/mod.rs | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/task/paths/mod.rs b/src/task/paths/mod.rs
index f484b1b..0a3ff31 100644
--- a/src/task/paths/mod.rs
+++ b/src/task/paths/mod.rs
@@ -21,7 +21,7 @@ use svgdom::{
     Document,
     Transform,
 };
-use svgdom::path::Path;
+use svgdom::path::{Command, Path};
 
 use task::short::{EId, AId};
 use task::apply_transforms::utils as ts_utils;
@@ -78,7 +78,18 @@ fn process_path(path: &mut Path, has_marker: bool, ts: Option<Transform>, opt: &
     path.conv_to_absolute();
 
     conv_segments::fix_m(path);
-    conv_segments::convert_hv_to_l(path);
+
+    // Only 'convert_segments' can change the type of LineTo segments.
+    let is_lines_only = opt.convert_segments
+                     || (opt.remove_unused_segments && !has_marker)
+                     || ts.is_some();
+    let has_hv = path.d.iter().any(|seg| {
+        seg.cmd() == Command::HorizontalLineTo || seg.cmd() == Command::VerticalLineTo
+    });
+
+    if is_lines_only {
+        conv_segments::convert_hv_to_l(path);
+    }
 
     if opt.convert_segments {
         conv_segments::convert_segments(path);
@@ -96,7 +107,9 @@ fn process_path(path: &mut Path, has_marker: bool, ts: Option<Transform>, opt: &
         apply_transform::apply_transform(path, ts);
     }
 
-    conv_segments::convert_l_to_hv(path);
+    if opt.convert_segments || (is_lines_only && has_hv) {
+        conv_segments::convert_l_to_hv(path);
+    }
 
     path.conv_to_relative();
 
-- 
2.43.0


From 5f4ac8753f9d32b9022c233626f372e38b73f658 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:18 +0000
Subject: [PATCH 48/64] fix: resolve_use panicked on a reference to an element
 that was not loaded

---
 src/task/resolve_use.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index 26f96bb..210b70e 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -42,9 +42,10 @@ pub fn resolve_use(doc: &Document) {
             if let AttributeValue::Link(ref link) = *value {
 
                 // Resolve elements that linked to elements inside 'defs'.
-                let parent = link.parent().unwrap();
-                if !parent.is_tag_name(EId::Defs) {
-                    continue;
+                // An element without a parent was not loaded.
+                match link.parent() {
+                    Some(ref parent) if parent.is_tag_name(EId::Defs) => {}
+                    _ => continue,
                 }
 
                 // 'symbol' elements can't be simply replaced
-- 
2.43.0


From b87aa809462ca94fbf5e1eab23a210fd44a3ab7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:20 +0000
Subject: [PATCH 49/64] fix: links of shapes were removed without unlinking

---
 src/task/rm_needless_attrs.rs | 26 +++++++++++++++++++++-----
 1 file changed, 21 insertions(+), 5 deletions(-)

diff --git a/src/task/rm_needless_attrs.rs b/src/task/rm_needless_attrs.rs
index b86ffe8..478ed4d 100644
--- a/src/task/rm_needless_attrs.rs
+++ b/src/task/rm_needless_attrs.rs
@@ -86,9 +86,25 @@ fn process_clip_path(node: &Node) {
     }
 }
 
+fn retain_attributes<F>(node: &mut Node, f: F)
+    where F: Fn(&Attribute) -> bool
+{
+    // Attributes with links must be removed via `Node::remove_attribute`.
+    let links: Vec<AId> = node.attributes().iter_svg()
+        .filter(|&(_, a)| (a.is_link() || a.is_func_link()) && !f(a))
+        .map(|(aid, _)| aid)
+        .collect();
+
+    for aid in links {
+        node.remove_attribute(aid);
+    }
+
+    node.attributes_mut().retain(f);
+}
+
 fn process_rect(node: &mut Node) {
     // Remove all non-rect attributes.
-    node.attributes_mut().retain(|a| {
+    retain_attributes(node, |a| {
            is_basic_shapes_attr(a)
         || a.has_id(AId::X)
         || a.has_id(AId::Y)
@@ -101,7 +117,7 @@ fn process_rect(node: &mut Node) {
 
 fn process_circle(node: &mut Node) {
     // Remove all non-circle attributes.
-    node.attributes_mut().retain(|a| {
+    retain_attributes(node, |a| {
            is_basic_shapes_attr(a)
         || a.has_id(AId::Cx)
         || a.has_id(AId::Cy)
@@ -111,7 +127,7 @@ fn process_circle(node: &mut Node) {
 
 fn process_ellipse(node: &mut Node) {
     // Remove all non-ellipse attributes.
-    node.attributes_mut().retain(|a| {
+    retain_attributes(node, |a| {
            is_basic_shapes_attr(a)
         || a.has_id(AId::Cx)
         || a.has_id(AId::Cy)
@@ -122,7 +138,7 @@ fn process_ellipse(node: &mut Node) {
 
 fn process_line(node: &mut Node) {
     // Remove all non-line attributes.
-    node.attributes_mut().retain(|a| {
+    retain_attributes(node, |a| {
            is_basic_shapes_attr(a)
         || a.has_id(AId::X1)
         || a.has_id(AId::Y1)
@@ -133,7 +149,7 @@ fn process_line(node: &mut Node) {
 
 fn process_poly(node: &mut Node) {
     // Remove all non-polyline/polygon attributes.
-    node.attributes_mut().retain(|a| {
+    retain_attributes(node, |a| {
            is_basic_shapes_attr(a)
         || a.has_id(AId::Points)
     });
-- 
2.43.0


From 76b1756a6133f4c1e1ee868dbd7d64d34effd265 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:21 +0000
Subject: [PATCH 50/64] fix: recursive gradients and stop offsets with units
 led to an endless loop, recursion or a panic

---
 src/task/resolve_gradients.rs | 44 +++++++++++++++++++++++------------
 1 file changed, 29 insertions(+), 15 deletions(-)

diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index 057a182..1c9c25d 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -122,6 +122,10 @@ pub fn resolve_stop_attributes(doc: &Document) -> Result<()> {
                     // convert percent into a number
                     let new_l = Length::new_number(l.num / 100.0);
                     node.set_attribute((AId::Offset, new_l));
+                } else if l.unit != LengthUnit::None {
+                    warn!("The 'offset' attribute must be a number or a percentage. \
+                           Fallback to 'offset=0'.");
+                    node.set_attribute((AId::Offset, Length::zero()));
                 }
             } else {
                 if idx == 0 {
@@ -160,6 +164,8 @@ fn gen_order(doc: &Document, eid: EId) -> Vec<Node> {
     let mut order = Vec::with_capacity(nodes.len());
 
     while order.len() != nodes.len() {
+        let prev_len = order.len();
+
         for node in &nodes {
             if order.iter().any(|on| on == node) {
                 continue;
@@ -173,6 +179,13 @@ fn gen_order(doc: &Document, eid: EId) -> Vec<Node> {
                 order.push(node.clone());
             }
         }
+
+        // Only gradients which depend on a recursive reference are left.
+        if order.len() == prev_len {
+            if let Some(node) = nodes.iter().find(|n| !order.contains(n)) {
+                order.push(node.clone());
+            }
+        }
     }
 
     order
@@ -190,24 +203,25 @@ fn check_attr(node: &mut Node, id: AId, def_value: Option<AttributeValue>) {
 
 fn resolve_attribute(node: &Node, id: AId, def_value: Option<AttributeValue>)
                      -> Option<AttributeValue> {
-    if node.has_attribute(id) {
-        return node.attributes().get_value(id).cloned();
-    }
+    let mut visited = Vec::new();
+    let mut node = node.clone();
 
-    match node.attributes().get_value(AId::XlinkHref) {
-        Some(av) => {
-            match *av {
-                AttributeValue::Link(ref ref_node) => resolve_attribute(ref_node, id, def_value),
-                _ => unreachable!(),
-            }
-        }
-        None => {
-            match node.attributes().get_value(id) {
-                Some(v) => Some(v.clone()),
-                None => def_value,
-            }
+    // References can be recursive.
+    while !visited.contains(&node) {
+        if node.has_attribute(id) {
+            return node.attributes().get_value(id).cloned();
         }
+
+        let link = match node.attributes().get_value(AId::XlinkHref) {
+            Some(&AttributeValue::Link(ref link)) => link.clone(),
+            _ => break,
+        };
+
+        visited.push(node);
+        node = link;
     }
+
+    def_value
 }
 
 #[cfg(test)]
-- 
2.43.0


From 597ec21a070ed159761684a2cb17ab0347b534a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:30:22 +0000
Subject: [PATCH 51/64] fix: remove_gradient_attributes never ended with
 recursive gradients

---
 src/task/rm_gradient_attrs.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/rm_gradient_attrs.rs b/src/task/rm_gradient_attrs.rs
index 4d884ad..f0d8336 100644
--- a/src/task/rm_gradient_attrs.rs
+++ b/src/task/rm_gradient_attrs.rs
@@ -71,6 +71,11 @@ fn rm_equal(doc: &Document) {
             }
         }
 
+        // Only gradients with recursive references are left.
+        if sub_order.is_empty() {
+            break;
+        }
+
         // Remove unused gradients.
         order.retain(|&(_, c)| c > 0);
 
-- 
2.43.0


From c2f315244e61d8dd2c362a52493c81140a960b54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:58 +0000
Subject: [PATCH 52/64] fix: moving of recursive references to defs panicked

---
 src/task/group_defs.rs | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/src/task/group_defs.rs b/src/task/group_defs.rs
index bfd1ec1..86f45dc 100644
--- a/src/task/group_defs.rs
+++ b/src/task/group_defs.rs
@@ -149,13 +149,13 @@ fn resolve_attrs(node: &Node) {
                 let is_font = aid == AId::FontSize || utils::is_font_relative(&attr);
 
                 if set_own || is_own || is_font {
-                    node.clone().set_attribute(attr);
+                    set_attribute(node, attr);
                     continue;
                 }
 
-                for (_, mut child) in node.children().svg() {
+                for (_, child) in node.children().svg() {
                     if !child.has_attribute(aid) {
-                        child.set_attribute(attr.clone());
+                        set_attribute(&child, attr.clone());
                     }
                 }
             }
@@ -170,14 +170,20 @@ fn resolve_attrs(node: &Node) {
 }
 
 fn resolve_own_attrs(node: &Node, ids: &[AId]) {
-    let mut node = node.clone();
-    for (aid, attr) in inherited_attrs(&node) {
+    for (aid, attr) in inherited_attrs(node) {
         if ids.contains(&aid) {
-            node.set_attribute(attr);
+            set_attribute(node, attr);
         }
     }
 }
 
+fn set_attribute(node: &Node, attr: Attribute) {
+    // An inherited link can refer to the element itself, which can't be set.
+    if node.clone().set_attribute_checked(attr).is_err() {
+        warn!("Recursive reference.");
+    }
+}
+
 fn is_inheritable(aid: AId, attr: &Attribute) -> bool {
     // 'visibility' is inheritable too.
     attr.is_inheritable() || aid == AId::Visibility
-- 
2.43.0


From 97e4d2894d72cebd7370d63190db40037a8b4bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:58 +0000
Subject: [PATCH 53/64] fix: resolve_use panicked on a reference to an ancestor

---
 src/task/resolve_use.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/resolve_use.rs b/src/task/resolve_use.rs
index 210b70e..a5a8c8a 100644
--- a/src/task/resolve_use.rs
+++ b/src/task/resolve_use.rs
@@ -64,6 +64,11 @@ pub fn resolve_use(doc: &Document) {
                     continue;
                 }
 
+                // Recursive references can't be resolved.
+                if node.parents().any(|n| n == *link) {
+                    continue;
+                }
+
                 if !can_be_replaced(&node, link) {
                     continue;
                 }
-- 
2.43.0


From 73b2d237bc4f84a33df41b88473ed47e58ff8ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:58 +0000
Subject: [PATCH 54/64] fix: remove_unused_defs panicked when all defs were
 removed already

---
 src/task/rm_unused_defs.rs | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/src/task/rm_unused_defs.rs b/src/task/rm_unused_defs.rs
index 713cafa..f8086bb 100644
--- a/src/task/rm_unused_defs.rs
+++ b/src/task/rm_unused_defs.rs
@@ -25,8 +25,11 @@ use svgdom::{
 use task::short::EId;
 
 pub fn remove_unused_defs(doc: &Document) {
-    // Unwrap is safe, because 'defs' already had been created in 'group_defs'.
-    let mut defs = doc.descendants().filter(|n| n.is_tag_name(EId::Defs)).nth(0).unwrap();
+    // 'defs' already had been created in 'group_defs', but it can be removed with it's parent.
+    let mut defs = match doc.descendants().filter(|n| n.is_tag_name(EId::Defs)).nth(0) {
+        Some(defs) => defs,
+        None => return,
+    };
 
     // Repeat until no unused nodes left.
     while remove_unused_defs_impl(&mut defs) { }
-- 
2.43.0


From 28138562619f588d0354ce1206396fdc904422cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:58 +0000
Subject: [PATCH 55/64] fix: remove_gradient_attributes panicked on a link from
 an element that was not loaded

---
 src/task/rm_gradient_attrs.rs | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/task/rm_gradient_attrs.rs b/src/task/rm_gradient_attrs.rs
index f0d8336..8f8a6d0 100644
--- a/src/task/rm_gradient_attrs.rs
+++ b/src/task/rm_gradient_attrs.rs
@@ -177,7 +177,9 @@ fn group_to_parent(doc: &Document) {
 
 fn make_attr_invisible(node: &mut Node, aid: AId) {
     let mut attrs = node.attributes_mut();
-    attrs.get_mut(aid).unwrap().visible = false;
+    if let Some(attr) = attrs.get_mut(aid) {
+        attr.visible = false;
+    }
 }
 
 #[cfg(test)]
-- 
2.43.0


From 2d15bb1a7726e9839220ecacf3d9b0d7c078bbe6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:58 +0000
Subject: [PATCH 56/64] fix: ungroup_groups set attributes of text nodes

---
 src/task/ungroup_groups.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/ungroup_groups.rs b/src/task/ungroup_groups.rs
index e7490c6..80f8791 100644
--- a/src/task/ungroup_groups.rs
+++ b/src/task/ungroup_groups.rs
@@ -23,6 +23,7 @@ use svgdom::{
     Document,
     Name,
     Node,
+    NodeType,
     ValueId,
 };
 
@@ -187,6 +188,10 @@ fn has_own_paint(node: &Node) -> bool {
 fn ungroup_group(g: &mut Node) {
     for (aid, attr) in g.attributes().iter_svg() {
         for mut child in g.children() {
+            if child.node_type() != NodeType::Element {
+                continue;
+            }
+
             if aid == AId::Opacity {
                 if child.has_attribute(aid) {
                     // We can't just replace 'opacity' attribute,
-- 
2.43.0


From 0e3175ccbcbef0999b20b2619b102ff4c3d8fef7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:58 +0000
Subject: [PATCH 57/64] fix: remove_invisible_elements panicked on a stop that
 was not a child of a gradient before

---
 src/task/rm_invisible_elems.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/task/rm_invisible_elems.rs b/src/task/rm_invisible_elems.rs
index 2cdc158..2270144 100644
--- a/src/task/rm_invisible_elems.rs
+++ b/src/task/rm_invisible_elems.rs
@@ -18,6 +18,7 @@
 
 use svgdom::{
     AttributeValue,
+    Color,
     Document,
     ElementType,
     FuzzyEq,
@@ -331,12 +332,12 @@ fn process_gradients(doc: &Document, is_any_removed: &mut bool) {
 
             let color = match stop.attributes().get_value(AId::StopColor) {
                 Some(&AttributeValue::Color(c)) => c,
-                _ => unreachable!("attribute must be resolved"),
+                _ => Color::new(0, 0, 0),
             };
 
             let opacity = match stop.attributes().get_value(AId::StopOpacity) {
                 Some(&AttributeValue::Number(n)) => n,
-                _ => unreachable!("attribute must be resolved"),
+                _ => 1.0,
             };
 
             // Replace links with colors, but not in gradients,
-- 
2.43.0


From f8fd13cb619a9b4139b242b107573ee1459ef1f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:44:58 +0000
Subject: [PATCH 58/64] fix: removing of duplicated elements could create a
 recursive reference and panic

---
 src/task/rm_dupl_defs/mod.rs | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index 3ee80cb..68a227c 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -88,6 +88,12 @@ fn rm_loop_impl<F>(nodes: &mut Vec<Node>, cmp: &F) -> bool
                 }
             }
 
+            // Relinking must not create recursive references.
+            if link_attrs.iter().any(|&(ref ln, _, _)| ln.linked_nodes().any(|n| n == node1)) {
+                link_attrs.clear();
+                continue;
+            }
+
             // Relink nodes.
             if !link_attrs.is_empty() {
                 for &mut (ref mut ln, ref aid, ref n) in &mut link_attrs {
-- 
2.43.0


From 43bce454fe7db6e7a1f2ce4f301dc7809c3f8a11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:53:53 +0000
Subject: [PATCH 59/64] fix: resolving of long chains of gradients must not be
 quadratic

---
 src/task/resolve_gradients.rs | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/src/task/resolve_gradients.rs b/src/task/resolve_gradients.rs
index 1c9c25d..95f1daf 100644
--- a/src/task/resolve_gradients.rs
+++ b/src/task/resolve_gradients.rs
@@ -203,22 +203,36 @@ fn check_attr(node: &mut Node, id: AId, def_value: Option<AttributeValue>) {
 
 fn resolve_attribute(node: &Node, id: AId, def_value: Option<AttributeValue>)
                      -> Option<AttributeValue> {
-    let mut visited = Vec::new();
+    fn linked(node: &Node) -> Option<Node> {
+        match node.attributes().get_value(AId::XlinkHref) {
+            Some(&AttributeValue::Link(ref link)) => Some(link.clone()),
+            _ => None,
+        }
+    }
+
     let mut node = node.clone();
+    // Follows the `node` twice as slow, so they will meet when references are recursive.
+    let mut slow = node.clone();
+    let mut is_odd = false;
 
-    // References can be recursive.
-    while !visited.contains(&node) {
+    loop {
         if node.has_attribute(id) {
             return node.attributes().get_value(id).cloned();
         }
 
-        let link = match node.attributes().get_value(AId::XlinkHref) {
-            Some(&AttributeValue::Link(ref link)) => link.clone(),
-            _ => break,
+        node = match linked(&node) {
+            Some(link) => link,
+            None => break,
         };
 
-        visited.push(node);
-        node = link;
+        if is_odd {
+            slow = linked(&slow).unwrap_or(slow);
+        }
+        is_odd = !is_odd;
+
+        if node == slow {
+            break;
+        }
     }
 
     def_value
-- 
2.43.0


From 326ee9d1fb172ce5c7f26c8648184df8789b986b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:45:36 +0000
Subject: [PATCH 60/64] fix: font properties used by relative lengths of dash
 arrays, containers and nested use elements were removed

---
 src/task/rm_text_attrs.rs | 66 ++++++++++++++++++++++-----------------
 src/task/utils.rs         | 13 ++++++++
 2 files changed, 51 insertions(+), 28 deletions(-)

diff --git a/src/task/rm_text_attrs.rs b/src/task/rm_text_attrs.rs
index 0e27b9f..665ccb2 100644
--- a/src/task/rm_text_attrs.rs
+++ b/src/task/rm_text_attrs.rs
@@ -23,7 +23,8 @@ use svgdom::{
     NodeType,
 };
 
-use task::short::{EId, AId, Unit};
+use task::short::{EId, AId};
+use task::utils;
 
 // It's self defined list of the text attributes. There are no such list in the SVG spec.
 static TEXT_ATTRIBUTES: &'static [AId] = &[
@@ -95,7 +96,7 @@ fn _remove_text_attributes(parent: &Node) -> bool {
 
         if node.has_children() {
             // Go deeper.
-            let can_rm = _remove_text_attributes(&node);
+            let can_rm = _remove_text_attributes(&node) && !is_font_dependent(&node);
             if can_rm {
                 if !node.is_tag_name(EId::FontFace) {
                     node.remove_attributes(TEXT_ATTRIBUTES);
@@ -108,9 +109,7 @@ fn _remove_text_attributes(parent: &Node) -> bool {
 
             // Only this parameters affect parent elements.
             let _no_td = !(   node.descendants().any(|n| n.node_type() == NodeType::Text)
-                           || node.is_tag_name(EId::Tref)
-                           || has_em_ex_attributes(&node)
-                           || is_linked_text(&node));
+                           || is_font_dependent(&node));
 
             if    _no_td
                && !node.is_tag_name(EId::FontFace) {
@@ -126,37 +125,48 @@ fn _remove_text_attributes(parent: &Node) -> bool {
     no_td
 }
 
+// Checks that the element itself, and not its children, depends on text attributes.
+fn is_font_dependent(node: &Node) -> bool {
+       node.is_tag_name(EId::Tref)
+    || has_em_ex_attributes(node)
+    || is_linked_text(node, &mut Vec::new())
+}
+
 fn has_em_ex_attributes(node: &Node) -> bool {
     // An 'em' and an 'ex' units are depend on current font.
 
-    // NOTE: actually, em/ex can be set in not parsed attributes, which will be ignored,
-    //       but it's probably near to impossible
+    // NOTE: actually, em/ex can be set in not parsed attributes, which will be ignored
+    //       unless it's a marker, but it's probably near to impossible
 
-    let attrs = node.attributes();
-    for attr in attrs.iter() {
-        if let AttributeValue::Length(ref len) = attr.value {
-            match len.unit {
-                Unit::Ex | Unit::Em => return true,
-                _ => {}
-            }
-        }
+    node.attributes().iter().any(|attr| {
+        // Text attributes by itself have no effect without a text.
+        let is_text_attr = attr.id().map_or(false, |aid| TEXT_ATTRIBUTES.contains(&aid));
+        !is_text_attr && utils::is_font_relative(attr)
+    })
+}
+
+// Checks that an element referenced by 'use' depends on text attributes.
+fn is_linked_text(node: &Node, visited: &mut Vec<Node>) -> bool {
+    if !node.is_tag_name(EId::Use) {
+        return false;
     }
 
-    false
-}
+    let link = match node.attributes().get_value(AId::XlinkHref) {
+        Some(&AttributeValue::Link(ref link)) => link.clone(),
+        _ => return false,
+    };
 
-fn is_linked_text(node: &Node) -> bool {
-    if node.is_tag_name(EId::Use) {
-        // We use 'attributes()' method instead of 'attribute()',
-        // because 'xlink:href' can contain base64 data, which will be expensive to copy.
-        let attrs = node.attributes();
-        if let Some(value) = attrs.get_value(AId::XlinkHref) {
-            if let AttributeValue::Link(ref link) = *value {
-                return link.descendants().any(|n| n.node_type() == NodeType::Text);
-            }
-        }
+    if visited.contains(&link) {
+        return false;
     }
-    false
+    visited.push(link.clone());
+
+    link.descendants().any(|n| {
+           n.node_type() == NodeType::Text
+        || n.is_tag_name(EId::Tref)
+        || has_em_ex_attributes(&n)
+        || is_linked_text(&n, visited)
+    })
 }
 
 // Remove xml:space=preserve.
diff --git a/src/task/utils.rs b/src/task/utils.rs
index c8de293..d77f6eb 100644
--- a/src/task/utils.rs
+++ b/src/task/utils.rs
@@ -171,6 +171,19 @@ pub fn is_font_relative(attr: &Attribute) -> bool {
     match attr.value {
         AttributeValue::Length(ref len) => is_relative(len),
         AttributeValue::LengthList(ref list) => list.iter().any(is_relative),
+        // Lengths of a marker are not parsed.
+        AttributeValue::String(ref s) => {
+            match attr.id() {
+                  Some(AId::MarkerWidth)
+                | Some(AId::MarkerHeight)
+                | Some(AId::RefX)
+                | Some(AId::RefY) => {
+                    let s = s.trim();
+                    s.ends_with("em") || s.ends_with("ex")
+                }
+                _ => false,
+            }
+        }
         _ => false,
     }
 }
-- 
2.43.0


From b009ba171479070852d7219cf9459009db53561e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:33 +0000
Subject: [PATCH 61/64] fix: gradients with different color-interpolation were
 treated as duplicates

---
 src/task/rm_dupl_defs/mod.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/task/rm_dupl_defs/mod.rs b/src/task/rm_dupl_defs/mod.rs
index 68a227c..fff8944 100644
--- a/src/task/rm_dupl_defs/mod.rs
+++ b/src/task/rm_dupl_defs/mod.rs
@@ -123,6 +123,11 @@ fn is_gradient_attrs_equal(node1: &Node, node2: &Node, attrs: &[AId]) -> bool {
 
     check_attr!(&attrs1, &attrs2, AId::GradientTransform, Transform::default());
 
+    // Colors of equal stops can be mixed differently.
+    if attrs1.get_value(AId::ColorInterpolation) != attrs2.get_value(AId::ColorInterpolation) {
+        return false;
+    }
+
     // Gradients must be linked to the same gradient or one to another,
     // otherwise they can have different stops or relinking will create a crosslink.
     let link1 = attrs1.get_value(AId::XlinkHref);
-- 
2.43.0


From 501f6823c3597ccb8dc8c8830d9d587041a71264 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:33 +0000
Subject: [PATCH 62/64] fix: ry equal to rx was removed from a rect with
 percent radii

---
 src/task/rm_unused_coords.rs | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/src/task/rm_unused_coords.rs b/src/task/rm_unused_coords.rs
index 18d063a..a86220a 100644
--- a/src/task/rm_unused_coords.rs
+++ b/src/task/rm_unused_coords.rs
@@ -21,7 +21,7 @@ use svgdom::{
     Document,
 };
 
-use task::short::{EId, AId};
+use task::short::{EId, AId, Unit};
 
 pub fn remove_unused_coordinates(doc: &Document) {
     let mut rm_list = Vec::with_capacity(16);
@@ -47,8 +47,11 @@ pub fn remove_unused_coordinates(doc: &Document) {
                 EId::Rect => {
                     // If 'rx' equals to 'ry', than we can remove 'ry'.
                     // https://www.w3.org/TR/SVG/shapes.html#RectElementRYAttribute
-                    if attrs.contains(AId::Rx) {
-                        if attrs.get_value(AId::Rx) == attrs.get_value(AId::Ry) {
+                    //
+                    // Percents are relative to different sides of the viewport.
+                    if let Some(&AttributeValue::Length(rx)) = attrs.get_value(AId::Rx) {
+                        if    rx.unit != Unit::Percent
+                           && attrs.get_value(AId::Rx) == attrs.get_value(AId::Ry) {
                             rm_list.push(AId::Ry);
                         }
                     }
-- 
2.43.0


From 5b2ea11ebb85bc2fe4dcf95a9d9b1a762a32c885 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:34 +0000
Subject: [PATCH 63/64] fix: font-face descriptors were removed as default
 properties

---
 src/task/rm_default_attrs.rs | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/src/task/rm_default_attrs.rs b/src/task/rm_default_attrs.rs
index f551d38..b78efda 100644
--- a/src/task/rm_default_attrs.rs
+++ b/src/task/rm_default_attrs.rs
@@ -38,7 +38,8 @@ pub fn remove_default_attributes(doc: &Document) {
         let tag_name = node.tag_id().unwrap();
 
         for (aid, attr) in node.attributes().iter_svg() {
-            if attr.is_presentation() {
+            // 'font-face' has descriptors and not properties. Their default values are different.
+            if attr.is_presentation() && tag_name != EId::FontFace {
                 if attr.check_is_default() {
                     // A default value can override a value inherited from the 'use' element.
                     if    (attr.is_inheritable() || aid == AId::Visibility)
@@ -219,8 +220,8 @@ fn is_default(attr: &Attribute, tag_name: EId) -> bool {
             // There are two different 'slope': one for 'font-face'
             // and one for 'feFunc*'.
             if let AttributeValue::String(ref s) = attr.value {
-                if tag_name == EId::FontFace && s == "0" {
-                    return true;
+                if tag_name == EId::FontFace {
+                    return s == "0";
                 } else if s == "1" {
                     return true;
                 }
-- 
2.43.0


From 2b704377a9a3bad1561a5c7702cd21b2cb4c1f26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:50:34 +0000
Subject: [PATCH 64/64] fix: font-face descriptors were joined into a style
 attribute

---
 src/task/join_style_attrs.rs | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/src/task/join_style_attrs.rs b/src/task/join_style_attrs.rs
index 2997bba..8121460 100644
--- a/src/task/join_style_attrs.rs
+++ b/src/task/join_style_attrs.rs
@@ -25,7 +25,7 @@ use svgdom::{
     WriteOptions,
 };
 
-use task::short::AId;
+use task::short::{EId, AId};
 use options::StyleJoinMode;
 
 pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOptions) {
@@ -35,7 +35,12 @@ pub fn join_style_attributes(doc: &Document, mode: StyleJoinMode, opt: &WriteOpt
         return;
     }
 
-    for (_, mut node) in doc.descendants().svg() {
+    for (id, mut node) in doc.descendants().svg() {
+        // 'font-face' has descriptors and not properties.
+        if id == EId::FontFace {
+            continue;
+        }
+
         let count = {
             let attrs = node.attributes();
             attrs.iter().filter(|a| can_join(a)).count()
-- 
2.43.0

