From 1af9353c4b2fa29ef943fa7601c1c1dfe7fe7e72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:55 +0000
Subject: [PATCH 01/27] fix: address OpaqueChanged patches by the tree they are
 applied to

The paths were computed from the tree before the structural patches that
precede them in the list, so they pointed at other nodes, or at none.
---
 hotmeal/src/diff.rs | 31 +++++++++++--------------------
 1 file changed, 11 insertions(+), 20 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 8dfbc55..2a8421b 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1158,26 +1158,7 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
         ));
     }
 
-    let mut patches = convert_ops_with_shadow(edit_ops, &tree_a.0, &diff_b, &matching)?;
-
-    // Now emit OpaqueChanged patches with correct paths from the shadow tree
-    // We need to compute paths for the opaque nodes. Since convert_ops_with_shadow
-    // already consumed the shadow tree, we build a simpler path computation.
-    // Actually, let's integrate opaque patches into convert_ops_with_shadow instead.
-    // For now, compute paths using the same approach as the shadow tree.
-    if !opaque_patches.is_empty() {
-        // Build a fresh shadow just for path computation
-        let shadow = ShadowTree::new(tree_a.0.arena.clone(), tree_a.0.root);
-        for (a_id, content) in opaque_patches {
-            let path = shadow.compute_path(a_id);
-            patches.push(Patch::OpaqueChanged {
-                path: NodePath(path),
-                content,
-            });
-        }
-    }
-
-    Ok(patches)
+    convert_ops_with_shadow(edit_ops, &tree_a.0, &diff_b, &matching, opaque_patches)
 }
 
 /// Encapsulates the shadow tree with slot-based path computation.
@@ -1539,6 +1520,7 @@ fn convert_ops_with_shadow<'a, T: DiffTree<Types = HtmlTreeTypes<'a>>>(
     tree_a: &Tree<HtmlTreeTypes<'a>>,
     tree_b: &T,
     matching: &Matching,
+    opaque_patches: Vec<(NodeId, Stem<'a>)>,
 ) -> Result<Vec<Patch<'a>>, DiffError> {
     // Create shadow tree with encapsulated state
     let mut shadow = ShadowTree::new(tree_a.arena.clone(), tree_a.root);
@@ -1849,6 +1831,15 @@ fn convert_ops_with_shadow<'a, T: DiffTree<Types = HtmlTreeTypes<'a>>>(
         }
     }
 
+    // OpaqueChanged patches are applied last, so their paths refer to the tree as all the
+    // operations above leave it.
+    for (a_id, content) in opaque_patches {
+        result.push(Patch::OpaqueChanged {
+            path: NodePath(shadow.compute_path(a_id)),
+            content,
+        });
+    }
+
     Ok(result)
 }
 
-- 
2.43.0


From da8c941b733cf53d96cdb9d22f559331ebd8ab61 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:24 +0000
Subject: [PATCH 02/27] fix: report opaque content that differs only in
 attributes

Node hashes leave attributes out, so such a change produced no OpaqueChanged
patch and was lost.
---
 hotmeal/src/diff.rs | 19 +++++++++++++++++--
 1 file changed, 17 insertions(+), 2 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 2a8421b..af04440 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1141,8 +1141,10 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
         if !diff_b.is_opaque(b_id) {
             continue;
         }
-        // Compare hashes — if identical, no change
-        if tree_a.hash(a_id) == diff_b.hash(b_id) {
+        // Compare hashes (which leave attributes out) and inner attributes — if identical, no change
+        if tree_a.hash(a_id) == diff_b.hash(b_id)
+            && same_inner_properties(&tree_a, a_id, &diff_b, b_id)
+        {
             continue;
         }
         // Get the original DOM node IDs for serialization
@@ -1161,6 +1163,19 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
     convert_ops_with_shadow(edit_ops, &tree_a.0, &diff_b, &matching, opaque_patches)
 }
 
+/// Whether the descendants of two structurally identical nodes carry the same attributes.
+fn same_inner_properties<'a, TA, TB>(tree_a: &TA, a: NodeId, tree_b: &TB, b: NodeId) -> bool
+where
+    TA: DiffTree<Types = HtmlTreeTypes<'a>>,
+    TB: DiffTree<Types = HtmlTreeTypes<'a>>,
+{
+    tree_a
+        .descendants(a)
+        .zip(tree_b.descendants(b))
+        .skip(1) // the nodes themselves
+        .all(|(x, y)| tree_a.properties(x).attrs == tree_b.properties(y).attrs)
+}
+
 /// Encapsulates the shadow tree with slot-based path computation.
 ///
 /// The arena has a "super root" whose children are slot nodes:
-- 
2.43.0


From a8c53516e844db2786c389ffd31cb70b3264af54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:26 +0000
Subject: [PATCH 03/27] fix: diff the body's own attributes against the old
 ones

The old body entered the diff without its attributes, so removing one went
unnoticed.
---
 hotmeal/src/diff.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index af04440..772bb4f 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -825,21 +825,22 @@ impl<'a> DiffTree for OpaqueAwareTree<'a> {
 /// If the document has no body, returns an empty body tree.
 pub fn build_tree_from_arena<'a>(doc: &Document<'a>) -> Tree<HtmlTreeTypes<'a>> {
     // Find body element, or create an empty body tree if none exists
-    let (body_tag, body_ns, body_id) = if let Some(body_id) = doc.body() {
+    let (body_tag, body_ns, body_attrs, body_id) = if let Some(body_id) = doc.body() {
         let body_node = doc.get(body_id);
         if let NodeKind::Element(elem) = &body_node.kind {
-            (elem.tag.clone(), body_node.ns, Some(body_id))
+            let attrs = elem.attrs.clone();
+            (elem.tag.clone(), body_node.ns, attrs, Some(body_id))
         } else {
-            (LocalName::from("body"), Namespace::Html, None)
+            (LocalName::from("body"), Namespace::Html, Vec::new(), None)
         }
     } else {
-        (LocalName::from("body"), Namespace::Html, None)
+        (LocalName::from("body"), Namespace::Html, Vec::new(), None)
     };
 
     let root_data = NodeData {
         hash: NodeHash(0),
         kind: HtmlNodeKind::Element(body_tag, body_ns),
-        properties: HtmlProps { attrs: Vec::new() },
+        properties: HtmlProps { attrs: body_attrs },
         text: None,
     };
 
-- 
2.43.0


From d9d624452ea63429308514948741a3390b0e7c29 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:19:29 +0000
Subject: [PATCH 04/27] fix: take the root element, not a comment before it, as
 the document's root

A comment in front of <html> left the document without a body, and every diff
of it empty.
---
 hotmeal/src/dom.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index b259f3b..5c0b9f2 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1321,11 +1321,12 @@ impl<'a> TreeSink for ArenaSink<'a> {
     fn finish(self) -> Self::Output {
         let arena = self.arena.into_inner();
 
-        // Find the root element (usually <html>)
+        // Find the root element (usually <html>); comments may come before it
         let root = self
             .document
             .children(&arena)
-            .next()
+            .find(|&id| matches!(arena[id].get().kind, NodeKind::Element(_)))
+            .or_else(|| self.document.children(&arena).next())
             .unwrap_or(self.document);
 
         Document {
-- 
2.43.0


From f69dac0a07c141396421bbc975167aaaa8bbfe14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:22:49 +0000
Subject: [PATCH 05/27] fix: replace an element that becomes opaque or stops
 being so

Pairing it with its counterpart left its content behind, because edit scripts
do not look inside opaque nodes.
---
 hotmeal/src/diff.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index 772bb4f..c40f44b 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1109,7 +1109,14 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
         ..MatchingConfig::default()
     };
 
-    let mut matching = cinereus::compute_matching(&tree_a, &diff_b, &config);
+    // An opaque node cannot be updated into one that is not, or the other way around, because the
+    // edit script leaves the inside of opaque nodes alone. Such nodes are replaced as a whole.
+    let mut matching = Matching::new();
+    for (a_id, b_id) in cinereus::compute_matching(&tree_a, &diff_b, &config).pairs() {
+        if tree_a.is_opaque(a_id) == diff_b.is_opaque(b_id) && !inside_opaque(&diff_b, b_id) {
+            matching.add(a_id, b_id);
+        }
+    }
 
     // Force root match if same tag
     let root_a_kind = tree_a.0.get(tree_a.0.root).kind.clone();
@@ -1164,6 +1171,11 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
     convert_ops_with_shadow(edit_ops, &tree_a.0, &diff_b, &matching, opaque_patches)
 }
 
+/// Whether a node is strictly inside an opaque node.
+fn inside_opaque<'a>(tree: &impl DiffTree<Types = HtmlTreeTypes<'a>>, node: NodeId) -> bool {
+    std::iter::successors(tree.parent(node), |&n| tree.parent(n)).any(|n| tree.is_opaque(n))
+}
+
 /// Whether the descendants of two structurally identical nodes carry the same attributes.
 fn same_inner_properties<'a, TA, TB>(tree_a: &TA, a: NodeId, tree_b: &TB, b: NodeId) -> bool
 where
-- 
2.43.0


From 842bee3ae6a66c4ae14d2e97a40312c535d7d3c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:23:33 +0000
Subject: [PATCH 06/27] fix: serialize raw text exactly where a parser reads it
 raw

iframe, noembed, noframes and xmp contents were escaped although parsers do not
unescape them; style and script inside SVG or MathML were not escaped although
parsers do.
---
 hotmeal/src/dom.rs | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 5c0b9f2..9137947 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -885,7 +885,8 @@ impl<'a> Document<'a> {
         out.push('>');
 
         // Children - raw text elements (script, style) should not have their content escaped
-        let is_raw_text = is_raw_text_element(tag);
+        // (only in HTML: an SVG <style> or <script> is parsed like any other element)
+        let is_raw_text = self.get(node_id).ns == Namespace::Html && is_raw_text_element(tag);
         for child_id in node_id.children(&self.arena) {
             if is_raw_text {
                 self.serialize_node_raw(out, child_id);
@@ -949,7 +950,10 @@ fn is_void_element(tag: &str) -> bool {
 /// (html5ever's default). When scripting is enabled, noscript is parsed as rawtext,
 /// so it must also be serialized as rawtext for innerHTML to be idempotent.
 fn is_raw_text_element(tag: &str) -> bool {
-    matches!(tag, "script" | "style" | "noscript")
+    matches!(
+        tag,
+        "script" | "style" | "noscript" | "iframe" | "noembed" | "noframes" | "xmp"
+    )
 }
 
 /// What goes in each arena slot
-- 
2.43.0


From 0b81f31a1ebfcfc8113a4235bb5f2b70b82f8887 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:24:18 +0000
Subject: [PATCH 07/27] fix: do not take a <header> for the <head> to inject
 into

---
 hotmeal-server/src/lib.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hotmeal-server/src/lib.rs b/hotmeal-server/src/lib.rs
index f5e8528..a35fd4c 100644
--- a/hotmeal-server/src/lib.rs
+++ b/hotmeal-server/src/lib.rs
@@ -234,7 +234,12 @@ impl Default for LiveReloadServer {
 pub fn inject_into_head(html: &str, content: &str) -> String {
     // Find <head> or <head ...> tag (case-insensitive)
     let lower = html.to_ascii_lowercase();
-    if let Some(head_start) = lower.find("<head") {
+    let head_tag = lower.match_indices("<head").map(|(i, _)| i).find(|&i| {
+        // not <header>
+        lower[i + "<head".len()..]
+            .starts_with(|c: char| c == '>' || c == '/' || c.is_ascii_whitespace())
+    });
+    if let Some(head_start) = head_tag {
         // Find the closing '>' of the <head> tag
         if let Some(head_end) = html[head_start..].find('>') {
             let insert_pos = head_start + head_end + 1;
-- 
2.43.0


From a2f25918218d07b42dce7740520f7a285358a4bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:22 +0000
Subject: [PATCH 08/27] fix: keep the doctype of a document that starts with a
 comment

---
 hotmeal/src/dom.rs | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 9137947..cac1655 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1014,14 +1014,18 @@ impl Namespace {
 }
 
 fn has_doctype_prefix(input: &str) -> bool {
-    let bytes = input.as_bytes();
-    let mut i = 0;
-    while i < bytes.len() && bytes[i].is_ascii_whitespace() {
-        i += 1;
+    // Whitespace and comments may come before the DOCTYPE
+    let mut rest = input.trim_start_matches(|c: char| c.is_ascii_whitespace());
+    while let Some(comment) = rest.strip_prefix("<!--") {
+        let Some(end) = comment.find("-->") else {
+            return false;
+        };
+        rest = comment[end + "-->".len()..].trim_start_matches(|c: char| c.is_ascii_whitespace());
     }
+    let bytes = rest.as_bytes();
     let doctype = b"<!doctype";
-    i + doctype.len() <= bytes.len()
-        && bytes[i..i + doctype.len()]
+    doctype.len() <= bytes.len()
+        && bytes[..doctype.len()]
             .iter()
             .zip(doctype)
             .all(|(b, d)| b.to_ascii_lowercase() == *d)
-- 
2.43.0


From 35fb689db074101d7fbcf8e74efa62e59538db4e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:47 +0000
Subject: [PATCH 09/27] fix: a byte order mark no longer moves the head into
 the body

---
 hotmeal/src/dom.rs | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index cac1655..85bca39 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1046,7 +1046,16 @@ fn has_doctype_prefix(input: &str) -> bool {
 pub fn parse(tendril: &StrTendril) -> Document<'_> {
     use tendril::TendrilSink;
 
-    let input_ref: &str = tendril.as_ref();
+    // A byte order mark is not part of the content; the parser drops it only
+    // when it is at the very start of what it reads, which a prefix would prevent.
+    const BOM: char = '\u{feff}';
+    let content = if tendril.starts_with(BOM) {
+        let bom_len = BOM.len_utf8() as u32;
+        tendril.subtendril(bom_len, tendril.len32() - bom_len)
+    } else {
+        tendril.clone()
+    };
+    let input_ref: &str = tendril.strip_prefix(BOM).unwrap_or(tendril);
     let sink = ArenaSink::new(input_ref);
 
     // Prepend DOCTYPE if not present to ensure no-quirks mode parsing.
@@ -1059,16 +1068,16 @@ pub fn parse(tendril: &StrTendril) -> Document<'_> {
     // get discarded. Instead, wrap in <html><body>...</body></html> so the
     // content is clearly in the body context.
     let input = if has_doctype {
-        tendril.clone()
+        content
     } else if has_html_structure(input_ref) {
         // Input has <html> or <body> tags, just prepend DOCTYPE
         let mut with_doctype = StrTendril::from("<!DOCTYPE html>");
-        with_doctype.push_tendril(tendril);
+        with_doctype.push_tendril(&content);
         with_doctype
     } else {
         // Input is raw body content - wrap it to preserve leading whitespace
         let mut wrapped = StrTendril::from("<!DOCTYPE html><html><body>");
-        wrapped.push_tendril(tendril);
+        wrapped.push_tendril(&content);
         wrapped.push_slice("</body></html>");
         wrapped
     };
-- 
2.43.0


From 887bded4d0cd5200b980409a8801acf0026e9333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:46:57 +0000
Subject: [PATCH 10/27] fix: inject into the head tag itself, not into a
 comment or an attribute value

---
 hotmeal-server/src/lib.rs | 57 +++++++++++++++++++++++++++------------
 1 file changed, 40 insertions(+), 17 deletions(-)

diff --git a/hotmeal-server/src/lib.rs b/hotmeal-server/src/lib.rs
index a35fd4c..6d1d1dc 100644
--- a/hotmeal-server/src/lib.rs
+++ b/hotmeal-server/src/lib.rs
@@ -227,28 +227,51 @@ impl Default for LiveReloadServer {
     }
 }
 
+/// Where the opening `<head>` tag ends (just after its `>`).
+fn head_tag_end(html: &str) -> Option<usize> {
+    // Find <head> or <head ...> tag (case-insensitive)
+    let lower = html.to_ascii_lowercase();
+    let mut from = 0;
+    let start = loop {
+        let i = from + lower[from..].find('<')?;
+        let tag = &lower[i..];
+        if tag.starts_with("<!--") {
+            // a tag inside a comment is not a tag
+            from = i + "<!--".len() + tag["<!--".len()..].find("-->")?;
+        } else if tag.strip_prefix("<head").is_some_and(|rest| {
+            // not <header>
+            rest.starts_with(|c: char| c == '>' || c == '/' || c.is_ascii_whitespace())
+        }) {
+            break i;
+        } else {
+            from = i + 1;
+        }
+    };
+    // Find the closing '>' of the <head> tag, which is not one in a quoted attribute value
+    let mut quote = None;
+    for (i, c) in html[start..].char_indices() {
+        match (quote, c) {
+            (Some(q), _) if q == c => quote = None,
+            (Some(_), _) => {}
+            (None, '"' | '\'') => quote = Some(c),
+            (None, '>') => return Some(start + i + 1),
+            (None, _) => {}
+        }
+    }
+    None
+}
+
 /// Inject content after the opening `<head>` tag.
 ///
 /// Searches for `<head>` (case-insensitive) and injects `content` immediately after it.
 /// If no `<head>` tag is found, prepends content at the start.
 pub fn inject_into_head(html: &str, content: &str) -> String {
-    // Find <head> or <head ...> tag (case-insensitive)
-    let lower = html.to_ascii_lowercase();
-    let head_tag = lower.match_indices("<head").map(|(i, _)| i).find(|&i| {
-        // not <header>
-        lower[i + "<head".len()..]
-            .starts_with(|c: char| c == '>' || c == '/' || c.is_ascii_whitespace())
-    });
-    if let Some(head_start) = head_tag {
-        // Find the closing '>' of the <head> tag
-        if let Some(head_end) = html[head_start..].find('>') {
-            let insert_pos = head_start + head_end + 1;
-            let mut result = String::with_capacity(html.len() + content.len());
-            result.push_str(&html[..insert_pos]);
-            result.push_str(content);
-            result.push_str(&html[insert_pos..]);
-            return result;
-        }
+    if let Some(insert_pos) = head_tag_end(html) {
+        let mut result = String::with_capacity(html.len() + content.len());
+        result.push_str(&html[..insert_pos]);
+        result.push_str(content);
+        result.push_str(&html[insert_pos..]);
+        return result;
     }
 
     // No <head> tag found — prepend
-- 
2.43.0


From fcee75dc51cf561e030e5911a510524102ddb81c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:59:17 +0000
Subject: [PATCH 11/27] fix: inserted svg and math elements keep their
 namespace

---
 hotmeal-wasm/src/lib.rs | 23 +++++++++++++++-------
 hotmeal/src/dom.rs      | 42 ++++++++++++++++++++++++++++++++++++-----
 2 files changed, 53 insertions(+), 12 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index 0e9f8b8..4a0ddd3 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -21,7 +21,7 @@
 //! which is essential for live-reload systems where hotmeal manages only part
 //! of the document.
 
-use hotmeal::{InsertContent, NodeId, StrTendril, parse};
+use hotmeal::{InsertContent, Namespace, NodeId, StrTendril, parse};
 #[cfg(target_arch = "wasm32")]
 use hotmeal_server::LiveReloadEvent;
 use smallvec::SmallVec;
@@ -466,10 +466,10 @@ fn apply_patch(
                 .ok_or_else(|| JsValue::from_str("parent is not an element"))?
                 .clone();
 
-            let new_node: Node = match create_element_with_attrs(doc, tag, attrs) {
+            let new_node: Node = match create_element_with_attrs(doc, &parent_el, tag, attrs) {
                 Ok(el) => {
                     for child in children {
-                        let child_node = create_insert_content(doc, child)?;
+                        let child_node = create_insert_content(doc, &el, child)?;
                         el.append_child(&child_node)?;
                     }
                     el.into()
@@ -722,10 +722,15 @@ fn insert_at_position(
 /// Returns Err if any attribute name is invalid for setAttribute.
 fn create_element_with_attrs(
     doc: &Document,
+    parent: &Element,
     tag: &str,
     attrs: &[hotmeal::AttrPair],
 ) -> Result<Element, JsValue> {
-    let el = doc.create_element(tag)?;
+    let parent_ns = Namespace::from_url(parent.namespace_uri().as_deref().unwrap_or_default());
+    let el = match parent_ns.of_child(&parent.local_name(), tag) {
+        Namespace::Html => doc.create_element(tag)?,
+        ns => doc.create_element_ns(Some(ns.url()), tag)?,
+    };
     for attr in attrs {
         let attr_name = match attr.name.prefix.as_ref().filter(|p| !p.is_empty()) {
             Some(prefix) => format!("{}:{}", prefix, attr.name.local),
@@ -823,16 +828,20 @@ fn serialize_insert_content(out: &mut String, content: &InsertContent) {
 }
 
 /// Create a DOM node from InsertContent.
-fn create_insert_content(doc: &Document, content: &InsertContent) -> Result<Node, JsValue> {
+fn create_insert_content(
+    doc: &Document,
+    parent: &Element,
+    content: &InsertContent,
+) -> Result<Node, JsValue> {
     match content {
         InsertContent::Element {
             tag,
             attrs,
             children,
-        } => match create_element_with_attrs(doc, tag, attrs) {
+        } => match create_element_with_attrs(doc, parent, tag, attrs) {
             Ok(el) => {
                 for child in children {
-                    let child_node = create_insert_content(doc, child)?;
+                    let child_node = create_insert_content(doc, &el, child)?;
                     el.append_child(&child_node)?;
                 }
                 Ok(el.into())
diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 85bca39..679187b 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -489,6 +489,15 @@ impl<'a> Document<'a> {
         self.apply_patch(patch, slots)
     }
 
+    /// The namespace of a new element `tag` below `parent_id`.
+    fn child_namespace(&self, parent_id: NodeId, tag: &str) -> Namespace {
+        let parent = self.get(parent_id);
+        match &parent.kind {
+            NodeKind::Element(elem) => parent.ns.of_child(elem.tag.as_ref(), tag),
+            _ => Namespace::Html.of_child("", tag),
+        }
+    }
+
     #[allow(clippy::too_many_lines)]
     fn apply_patch(
         &mut self,
@@ -505,6 +514,8 @@ impl<'a> Document<'a> {
                 detach_to_slot,
             } => {
                 // Create new element node
+                let (parent_id, _) = self.get_slot_parent(&at.0.0, slots)?;
+                let ns = self.child_namespace(parent_id, tag.as_ref());
                 let elem_data = ElementData {
                     tag: tag.clone(),
                     attrs: attrs
@@ -514,12 +525,12 @@ impl<'a> Document<'a> {
                 };
                 let new_node = self.arena.new_node(NodeData {
                     kind: NodeKind::Element(elem_data),
-                    ns: Namespace::Html,
+                    ns,
                 });
 
                 // Add children to the new element
                 for child in children {
-                    let child_node = self.create_insert_content(child)?;
+                    let child_node = self.create_insert_content(child, new_node)?;
                     new_node.append(child_node, &mut self.arena);
                 }
 
@@ -779,24 +790,29 @@ impl<'a> Document<'a> {
         Ok(())
     }
 
-    fn create_insert_content(&mut self, content: InsertContent<'a>) -> Result<NodeId, DiffError> {
+    fn create_insert_content(
+        &mut self,
+        content: InsertContent<'a>,
+        parent_id: NodeId,
+    ) -> Result<NodeId, DiffError> {
         match content {
             InsertContent::Element {
                 tag,
                 attrs,
                 children,
             } => {
+                let ns = self.child_namespace(parent_id, tag.as_ref());
                 let elem_data = ElementData {
                     tag,
                     attrs: attrs.into_iter().map(|a| (a.name, a.value)).collect(),
                 };
                 let node = self.arena.new_node(NodeData {
                     kind: NodeKind::Element(elem_data),
-                    ns: Namespace::Html,
+                    ns,
                 });
 
                 for child in children {
-                    let child_node = self.create_insert_content(child)?;
+                    let child_node = self.create_insert_content(child, node)?;
                     node.append(child_node, &mut self.arena);
                 }
 
@@ -1011,6 +1027,22 @@ impl Namespace {
             Namespace::MathMl => "http://www.w3.org/1998/Math/MathML",
         }
     }
+
+    /// The namespace of an element `tag` placed in an element `parent_tag`, as an HTML parser
+    /// decides it. Patches name elements by their tag only.
+    pub fn of_child(self, parent_tag: &str, tag: &str) -> Self {
+        let html_content = match self {
+            Namespace::Html => true,
+            Namespace::Svg => matches!(parent_tag, "foreignObject" | "desc" | "title"),
+            Namespace::MathMl => matches!(parent_tag, "mi" | "mo" | "mn" | "ms" | "mtext"),
+        };
+        match tag {
+            "svg" if html_content || parent_tag == "annotation-xml" => Namespace::Svg,
+            "math" if html_content => Namespace::MathMl,
+            _ if html_content => Namespace::Html,
+            _ => self,
+        }
+    }
 }
 
 fn has_doctype_prefix(input: &str) -> bool {
-- 
2.43.0


From 4fd364fea22b7e553da76789ddff6f13f026a2fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:53 +0000
Subject: [PATCH 12/27] fix: serialize foreign elements that share a void
 element's name with their content

---
 hotmeal/src/dom.rs | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 679187b..59394b8 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -892,8 +892,10 @@ impl<'a> Document<'a> {
             out.push('"');
         }
 
-        // Check if void element
-        if is_void_element(tag) {
+        let is_html = self.get(node_id).ns == Namespace::Html;
+
+        // Check if void element (only in HTML: an SVG <link> has content and an end tag)
+        if is_html && is_void_element(tag) {
             out.push('>');
             return;
         }
@@ -902,7 +904,7 @@ impl<'a> Document<'a> {
 
         // Children - raw text elements (script, style) should not have their content escaped
         // (only in HTML: an SVG <style> or <script> is parsed like any other element)
-        let is_raw_text = self.get(node_id).ns == Namespace::Html && is_raw_text_element(tag);
+        let is_raw_text = is_html && is_raw_text_element(tag);
         for child_id in node_id.children(&self.arena) {
             if is_raw_text {
                 self.serialize_node_raw(out, child_id);
-- 
2.43.0


From 6a112d98e8a2c654666a854407cd9a09603f7e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:14 +0000
Subject: [PATCH 13/27] fix: keep a newline at the start of pre, listing and
 textarea when serializing

---
 hotmeal/src/dom.rs | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 59394b8..1dbdbc7 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -905,6 +905,7 @@ impl<'a> Document<'a> {
         // Children - raw text elements (script, style) should not have their content escaped
         // (only in HTML: an SVG <style> or <script> is parsed like any other element)
         let is_raw_text = is_html && is_raw_text_element(tag);
+        let content_start = out.len();
         for child_id in node_id.children(&self.arena) {
             if is_raw_text {
                 self.serialize_node_raw(out, child_id);
@@ -913,6 +914,14 @@ impl<'a> Document<'a> {
             }
         }
 
+        // A parser drops a newline right behind these start tags: write one more to keep the first
+        if is_html
+            && matches!(tag, "pre" | "listing" | "textarea")
+            && out[content_start..].starts_with('\n')
+        {
+            out.insert(content_start, '\n');
+        }
+
         // Closing tag
         out.push_str("</");
         out.push_str(tag);
-- 
2.43.0


From 18d5ab09272f1bec19ea8ea0ecc7e455c9053bea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:16 +0000
Subject: [PATCH 14/27] fix: parse the new content of an opaque element in the
 context of that element

The native applier parsed it as the content of a div, which lost the rows of
tables, the namespace of svg content and the text of scripts and styles (which
the diff had escaped as well).
---
 hotmeal/src/dom.rs | 60 +++++++++++++++++++++++++++-------------------
 1 file changed, 35 insertions(+), 25 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 1dbdbc7..a3565e9 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -8,7 +8,7 @@
 
 use cinereus::indextree::{Arena, NodeId};
 use html5ever::tree_builder::{ElemName, ElementFlags, NodeOrText, QuirksMode, TreeSink};
-use html5ever::{Attribute, LocalName, QualName, parse_document};
+use html5ever::{Attribute, LocalName, ParseOpts, QualName, parse_document};
 use html5ever::{local_name, ns};
 use std::borrow::Cow;
 use std::cell::RefCell;
@@ -402,8 +402,15 @@ impl<'a> Document<'a> {
     /// Serialize the inner HTML of a node (its children, not the node itself).
     pub fn serialize_inner_html(&self, node_id: NodeId) -> String {
         let mut output = String::new();
+        let node = self.get(node_id);
+        let is_raw_text = node.ns == Namespace::Html
+            && matches!(&node.kind, NodeKind::Element(elem) if is_raw_text_element(&elem.tag));
         for child_id in node_id.children(&self.arena) {
-            self.serialize_node(&mut output, child_id);
+            if is_raw_text {
+                self.serialize_node_raw(&mut output, child_id);
+            } else {
+                self.serialize_node(&mut output, child_id);
+            }
         }
         output
     }
@@ -689,20 +696,21 @@ impl<'a> Document<'a> {
                 for child in children {
                     child.detach(&mut self.arena);
                 }
-                // Parse the new content and attach as children
-                // We parse a minimal document wrapper to get the content nodes
-                let wrapper_html =
-                    format!("<html><body><div>{}</div></body></html>", content.as_ref());
-                let wrapper_tendril = StrTendril::from(wrapper_html.as_str());
-                let wrapper_doc = crate::dom::parse(&wrapper_tendril);
-                if let Some(body_id) = wrapper_doc.body() {
-                    // The content is inside body > div
-                    if let Some(div_id) = body_id.children(&wrapper_doc.arena).next() {
-                        for child_id in div_id.children(&wrapper_doc.arena) {
-                            let cloned = self.clone_subtree_from(&wrapper_doc, child_id);
-                            node_id.append(cloned, &mut self.arena);
-                        }
+                // Parse the new content like an assignment to the element's innerHTML would
+                let node = self.get(node_id);
+                let context_name = match &node.kind {
+                    NodeKind::Element(elem) => {
+                        QualName::new(None, node.ns.url().into(), elem.tag.clone())
                     }
+                    _ => QualName::new(None, ns!(html), local_name!("body")),
+                };
+                let mut opts = ParseOpts::default();
+                opts.tokenizer.discard_bom = false;
+                let content = StrTendril::from(content.as_ref());
+                let fragment = parse_fragment_in(&content, context_name, opts);
+                for child_id in fragment.root.children(&fragment.arena) {
+                    let cloned = self.clone_subtree_from(&fragment, child_id);
+                    node_id.append(cloned, &mut self.arena);
                 }
             }
         }
@@ -1140,25 +1148,27 @@ pub fn parse(tendril: &StrTendril) -> Document<'_> {
 ///
 /// Use this when comparing against browser innerHTML parsing for parity testing.
 pub fn parse_body_fragment(tendril: &StrTendril) -> Document<'_> {
+    // Parse as fragment with <body> as context
+    let context_name = QualName::new(None, ns!(html), local_name!("body"));
+    parse_fragment_in(tendril, context_name, ParseOpts::default())
+}
+
+/// Parse HTML as the inner HTML of an element named `context_name`, scripting enabled.
+fn parse_fragment_in(
+    tendril: &StrTendril,
+    context_name: QualName,
+    opts: ParseOpts,
+) -> Document<'_> {
     use html5ever::parse_fragment;
     use tendril::TendrilSink;
 
     let input_ref: &str = tendril.as_ref();
     let sink = ArenaSink::new(input_ref);
 
-    // Parse as fragment with <body> as context, scripting enabled
-    let context_name = QualName::new(None, ns!(html), local_name!("body"));
     let context_attrs = vec![];
     let scripting_enabled = true;
 
-    parse_fragment(
-        sink,
-        Default::default(),
-        context_name,
-        context_attrs,
-        scripting_enabled,
-    )
-    .one(tendril.clone())
+    parse_fragment(sink, opts, context_name, context_attrs, scripting_enabled).one(tendril.clone())
 }
 
 /// Check if input has HTML structure tags (<html> or <body>).
-- 
2.43.0


From 82a585fc121a56df4ecdde5f22654a3123b89465 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:44 +0000
Subject: [PATCH 15/27] fix: set namespaced attributes in their namespace

The browser's applier set an svg element's xlink:href as an attribute without
a namespace, which links to nothing.
---
 hotmeal-wasm/src/lib.rs | 51 ++++++++++++++++++++++-------------------
 1 file changed, 28 insertions(+), 23 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index 4a0ddd3..7d0177e 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -21,7 +21,7 @@
 //! which is essential for live-reload systems where hotmeal manages only part
 //! of the document.
 
-use hotmeal::{InsertContent, Namespace, NodeId, StrTendril, parse};
+use hotmeal::{InsertContent, Namespace, NodeId, QualName, StrTendril, parse};
 #[cfg(target_arch = "wasm32")]
 use hotmeal_server::LiveReloadEvent;
 use smallvec::SmallVec;
@@ -399,20 +399,12 @@ fn apply_patch(
 
         Patch::SetAttribute { path, name, value } => {
             let el = find_element(root, path, slots)?;
-            let attr_name = match name.prefix.as_ref().filter(|p| !p.is_empty()) {
-                Some(prefix) => format!("{}:{}", prefix, name.local),
-                None => name.local.to_string(),
-            };
-            el.set_attribute(&attr_name, value)?;
+            set_attribute(&el, name, value)?;
         }
 
         Patch::RemoveAttribute { path, name } => {
             let el = find_element(root, path, slots)?;
-            let attr_name = match name.prefix.as_ref().filter(|p| !p.is_empty()) {
-                Some(prefix) => format!("{}:{}", prefix, name.local),
-                None => name.local.to_string(),
-            };
-            el.remove_attribute(&attr_name)?;
+            el.remove_attribute(&qualified_name(name))?;
         }
 
         Patch::Remove { node } => {
@@ -584,16 +576,14 @@ fn apply_patch(
 
                 for change in changes {
                     if let PropKey::Attr(ref qual_name) = change.name {
-                        let attr_name = if let Some(ref prefix) = qual_name.prefix {
-                            format!("{}:{}", prefix, qual_name.local)
-                        } else {
-                            qual_name.local.to_string()
-                        };
                         let value = match &change.value {
                             Some(v) => v.as_ref().to_string(),
-                            None => existing.get(&attr_name).cloned().unwrap_or_default(),
+                            None => existing
+                                .get(&qualified_name(qual_name))
+                                .cloned()
+                                .unwrap_or_default(),
                         };
-                        el.set_attribute(&attr_name, &value)?;
+                        set_attribute(el, qual_name, &value)?;
                     }
                 }
             }
@@ -732,15 +722,30 @@ fn create_element_with_attrs(
         ns => doc.create_element_ns(Some(ns.url()), tag)?,
     };
     for attr in attrs {
-        let attr_name = match attr.name.prefix.as_ref().filter(|p| !p.is_empty()) {
-            Some(prefix) => format!("{}:{}", prefix, attr.name.local),
-            None => attr.name.local.to_string(),
-        };
-        el.set_attribute(&attr_name, &attr.value)?;
+        set_attribute(&el, &attr.name, &attr.value)?;
     }
     Ok(el)
 }
 
+/// The name of an attribute as it is written in markup.
+fn qualified_name(name: &QualName) -> String {
+    match name.prefix.as_ref().filter(|p| !p.is_empty()) {
+        Some(prefix) => format!("{}:{}", prefix, name.local),
+        None => name.local.to_string(),
+    }
+}
+
+/// Set an attribute in the namespace its name has: an SVG `xlink:href` outside of the XLink
+/// namespace links to nothing.
+fn set_attribute(el: &Element, name: &QualName, value: &str) -> Result<(), JsValue> {
+    let attr_name = qualified_name(name);
+    if name.ns.is_empty() {
+        el.set_attribute(&attr_name, value)
+    } else {
+        el.set_attribute_ns(Some(&name.ns), &attr_name, value)
+    }
+}
+
 /// Create an element via innerHTML when setAttribute fails.
 /// This handles exotic attribute names that the HTML parser accepts but the DOM API rejects.
 fn create_element_via_html(
-- 
2.43.0


From 63922d94970cb2eba54e1f7a02d5f7d77260e589 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:11 +0000
Subject: [PATCH 16/27] fix: apply patches to elements with attribute names
 that setAttribute rejects

An UpdateProps patch on an element with an attribute such as @click removed the
attributes of the element and failed. Inserting such an element serialized it
with its children, which doubled void elements and escaped scripts.
---
 hotmeal-wasm/src/lib.rs | 163 ++++++++++++++++------------------------
 1 file changed, 63 insertions(+), 100 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index 7d0177e..3499145 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -399,7 +399,7 @@ fn apply_patch(
 
         Patch::SetAttribute { path, name, value } => {
             let el = find_element(root, path, slots)?;
-            set_attribute(&el, name, value)?;
+            set_attribute(doc, &el, name, value)?;
         }
 
         Patch::RemoveAttribute { path, name } => {
@@ -458,16 +458,12 @@ fn apply_patch(
                 .ok_or_else(|| JsValue::from_str("parent is not an element"))?
                 .clone();
 
-            let new_node: Node = match create_element_with_attrs(doc, &parent_el, tag, attrs) {
-                Ok(el) => {
-                    for child in children {
-                        let child_node = create_insert_content(doc, &el, child)?;
-                        el.append_child(&child_node)?;
-                    }
-                    el.into()
-                }
-                Err(_) => create_element_via_html(doc, tag, attrs, children)?,
-            };
+            let el = create_element_with_attrs(doc, &parent_el, tag, attrs)?;
+            for child in children {
+                let child_node = create_insert_content(doc, &el, child)?;
+                el.append_child(&child_node)?;
+            }
+            let new_node: Node = el.into();
 
             insert_at_position(
                 doc,
@@ -583,7 +579,7 @@ fn apply_patch(
                                 .cloned()
                                 .unwrap_or_default(),
                         };
-                        set_attribute(el, qual_name, &value)?;
+                        set_attribute(doc, el, qual_name, &value)?;
                     }
                 }
             }
@@ -708,8 +704,7 @@ fn insert_at_position(
     Ok(())
 }
 
-/// Try to create an element with attributes using the DOM API.
-/// Returns Err if any attribute name is invalid for setAttribute.
+/// Create an element with attributes.
 fn create_element_with_attrs(
     doc: &Document,
     parent: &Element,
@@ -717,12 +712,17 @@ fn create_element_with_attrs(
     attrs: &[hotmeal::AttrPair],
 ) -> Result<Element, JsValue> {
     let parent_ns = Namespace::from_url(parent.namespace_uri().as_deref().unwrap_or_default());
-    let el = match parent_ns.of_child(&parent.local_name(), tag) {
-        Namespace::Html => doc.create_element(tag)?,
-        ns => doc.create_element_ns(Some(ns.url()), tag)?,
+    let ns = parent_ns.of_child(&parent.local_name(), tag);
+    let created = match ns {
+        Namespace::Html => doc.create_element(tag),
+        ns => doc.create_element_ns(Some(ns.url()), tag),
+    };
+    let el = match created {
+        Ok(el) => el,
+        Err(_) => create_element_via_html(doc, ns, tag, "")?,
     };
     for attr in attrs {
-        set_attribute(&el, &attr.name, &attr.value)?;
+        set_attribute(doc, &el, &attr.name, &attr.value)?;
     }
     Ok(el)
 }
@@ -737,46 +737,50 @@ fn qualified_name(name: &QualName) -> String {
 
 /// Set an attribute in the namespace its name has: an SVG `xlink:href` outside of the XLink
 /// namespace links to nothing.
-fn set_attribute(el: &Element, name: &QualName, value: &str) -> Result<(), JsValue> {
+fn set_attribute(
+    doc: &Document,
+    el: &Element,
+    name: &QualName,
+    value: &str,
+) -> Result<(), JsValue> {
     let attr_name = qualified_name(name);
-    if name.ns.is_empty() {
+    let set = if name.ns.is_empty() {
         el.set_attribute(&attr_name, value)
     } else {
         el.set_attribute_ns(Some(&name.ns), &attr_name, value)
+    };
+    if set.is_ok() {
+        return Ok(());
     }
+
+    // The DOM API rejects names such as `@click`; let the HTML parser make the attribute
+    let donor = create_element_via_html(doc, Namespace::Html, "div", &format!(" {attr_name}=''"))?;
+    let attr = donor
+        .attributes()
+        .item(0)
+        .ok_or_else(|| JsValue::from_str(&format!("cannot set attribute {attr_name:?}")))?;
+    donor.remove_attribute_node(&attr)?;
+    attr.set_value(value);
+    el.set_attribute_node(&attr)?;
+    Ok(())
 }
 
-/// Create an element via innerHTML when setAttribute fails.
-/// This handles exotic attribute names that the HTML parser accepts but the DOM API rejects.
+/// Create an element like an HTML parser does. `attrs` is markup.
+/// This handles exotic names that the HTML parser accepts but the DOM API rejects.
 fn create_element_via_html(
     doc: &Document,
+    ns: Namespace,
     tag: &str,
-    attrs: &[hotmeal::AttrPair],
-    children: &[InsertContent],
-) -> Result<Node, JsValue> {
+    attrs: &str,
+) -> Result<Element, JsValue> {
     use web_sys::HtmlTemplateElement;
 
-    let mut html = format!("<{}", tag);
-    for attr in attrs {
-        let attr_name = match attr.name.prefix.as_ref().filter(|p| !p.is_empty()) {
-            Some(prefix) => format!("{}:{}", prefix, attr.name.local),
-            None => attr.name.local.to_string(),
-        };
-        let escaped_value = attr
-            .value
-            .replace('&', "&amp;")
-            .replace('"', "&quot;")
-            .replace('<', "&lt;")
-            .replace('>', "&gt;");
-        html.push_str(&format!(" {}=\"{}\"", attr_name, escaped_value));
-    }
-    html.push('>');
-
-    for child in children {
-        serialize_insert_content(&mut html, child);
-    }
-
-    html.push_str(&format!("</{}>", tag));
+    let el = format!("<{tag}{attrs}></{tag}>");
+    let (html, depth) = match ns {
+        Namespace::Html => (el, 0),
+        Namespace::Svg => (format!("<svg>{el}</svg>"), 1),
+        Namespace::MathMl => (format!("<math>{el}</math>"), 1),
+    };
 
     let template = doc
         .create_element("template")?
@@ -784,52 +788,13 @@ fn create_element_via_html(
         .map_err(|_| JsValue::from_str("failed to create template element"))?;
     template.set_inner_html(&html);
 
-    template
-        .content()
-        .first_child()
-        .ok_or_else(|| JsValue::from_str("template content is empty"))
-}
-
-/// Serialize InsertContent to HTML string
-fn serialize_insert_content(out: &mut String, content: &InsertContent) {
-    match content {
-        InsertContent::Element {
-            tag,
-            attrs,
-            children,
-        } => {
-            out.push('<');
-            out.push_str(tag);
-            for attr in attrs {
-                let attr_name = match attr.name.prefix.as_ref().filter(|p| !p.is_empty()) {
-                    Some(prefix) => format!("{}:{}", prefix, attr.name.local),
-                    None => attr.name.local.to_string(),
-                };
-                let escaped_value = attr
-                    .value
-                    .replace('&', "&amp;")
-                    .replace('"', "&quot;")
-                    .replace('<', "&lt;")
-                    .replace('>', "&gt;");
-                out.push_str(&format!(" {}=\"{}\"", attr_name, escaped_value));
-            }
-            out.push('>');
-            for child in children {
-                serialize_insert_content(out, child);
-            }
-            out.push_str("</");
-            out.push_str(tag);
-            out.push('>');
-        }
-        InsertContent::Text(text) => {
-            out.push_str(&text.replace('&', "&amp;").replace('<', "&lt;"));
-        }
-        InsertContent::Comment(text) => {
-            out.push_str("<!--");
-            out.push_str(text);
-            out.push_str("-->");
-        }
+    let mut node = template.content().first_child();
+    for _ in 0..depth {
+        node = node.and_then(|n| n.first_child());
     }
+    node.ok_or_else(|| JsValue::from_str("template content is empty"))?
+        .dyn_into::<Element>()
+        .map_err(|_| JsValue::from_str("template content is not an element"))
 }
 
 /// Create a DOM node from InsertContent.
@@ -843,16 +808,14 @@ fn create_insert_content(
             tag,
             attrs,
             children,
-        } => match create_element_with_attrs(doc, parent, tag, attrs) {
-            Ok(el) => {
-                for child in children {
-                    let child_node = create_insert_content(doc, &el, child)?;
-                    el.append_child(&child_node)?;
-                }
-                Ok(el.into())
+        } => {
+            let el = create_element_with_attrs(doc, parent, tag, attrs)?;
+            for child in children {
+                let child_node = create_insert_content(doc, &el, child)?;
+                el.append_child(&child_node)?;
             }
-            Err(_) => create_element_via_html(doc, tag, attrs, children),
-        },
+            Ok(el.into())
+        }
         InsertContent::Text(text) => Ok(doc.create_text_node(text).into()),
         InsertContent::Comment(text) => Ok(doc.create_comment(text).into()),
     }
-- 
2.43.0


From d300334e3d201f5c2e103023039c809a3d25f324 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:15:35 +0000
Subject: [PATCH 17/27] fix: apply patches inside of template elements

What a template contains is not among its children, so patches to it failed, and inserted
templates stayed empty.
---
 hotmeal-wasm/src/lib.rs | 26 ++++++++++++++++++--------
 1 file changed, 18 insertions(+), 8 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index 3499145..40d3618 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -461,7 +461,7 @@ fn apply_patch(
             let el = create_element_with_attrs(doc, &parent_el, tag, attrs)?;
             for child in children {
                 let child_node = create_insert_content(doc, &el, child)?;
-                el.append_child(&child_node)?;
+                content_host(&el).append_child(&child_node)?;
             }
             let new_node: Node = el.into();
 
@@ -664,7 +664,8 @@ fn insert_at_position(
     detach_to_slot: Option<u32>,
     slots: &mut Slots,
 ) -> Result<(), JsValue> {
-    let children = parent.child_nodes();
+    let host = content_host(parent);
+    let children = host.child_nodes();
     let current_len = children.length() as usize;
     let pos = position as u32;
 
@@ -683,7 +684,7 @@ fn insert_at_position(
             existing_text = ?existing.text_content(),
             "replacing existing node"
         );
-        let replaced = parent.replace_child(node, &existing)?;
+        let replaced = host.replace_child(node, &existing)?;
         if let Some(slot) = detach_to_slot {
             trace!(slot, "storing replaced node in slot");
             slots.store(slot, replaced);
@@ -696,9 +697,9 @@ fn insert_at_position(
         );
         for _ in current_len..position {
             let placeholder = doc.create_text_node("");
-            parent.append_child(&placeholder)?;
+            host.append_child(&placeholder)?;
         }
-        parent.append_child(node)?;
+        host.append_child(node)?;
     }
 
     Ok(())
@@ -812,7 +813,7 @@ fn create_insert_content(
             let el = create_element_with_attrs(doc, parent, tag, attrs)?;
             for child in children {
                 let child_node = create_insert_content(doc, &el, child)?;
-                el.append_child(&child_node)?;
+                content_host(&el).append_child(&child_node)?;
             }
             Ok(el.into())
         }
@@ -821,11 +822,20 @@ fn create_insert_content(
     }
 }
 
+/// The node whose child list is the content of `node`. What a `<template>` contains is not among
+/// its children, it is in a fragment of its own.
+fn content_host(node: &Node) -> Node {
+    match node.dyn_ref::<web_sys::HtmlTemplateElement>() {
+        Some(template) => template.content().into(),
+        None => node.clone(),
+    }
+}
+
 /// Navigate a relative path within a node (for slot-relative paths).
 fn navigate_within_node(root: &Node, path: &NodePath) -> Result<Node, JsValue> {
     let mut current = root.clone();
     for &idx in &path.0 {
-        let children = current.child_nodes();
+        let children = content_host(&current).child_nodes();
         current = children
             .item(idx)
             .ok_or_else(|| JsValue::from_str(&format!("relative path child {} not found", idx)))?;
@@ -847,7 +857,7 @@ fn find_node(root: &Node, path: &NodePath, slots: &Slots) -> Result<Node, JsValu
 
     let mut current = slot_root;
     for &idx in &path.0[1..] {
-        let children = current.child_nodes();
+        let children = content_host(&current).child_nodes();
         let num_children = children.length();
         trace!(idx, num_children, "navigating to child");
         current = children.item(idx).ok_or_else(|| {
-- 
2.43.0


From c46e137f280f39ac24f43631be3b7a6866fefa75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:17 +0000
Subject: [PATCH 18/27] fix: take the whole name of an inserted svg or math
 element for its local name

---
 hotmeal-wasm/src/lib.rs | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index 40d3618..eba477e 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -715,12 +715,14 @@ fn create_element_with_attrs(
     let parent_ns = Namespace::from_url(parent.namespace_uri().as_deref().unwrap_or_default());
     let ns = parent_ns.of_child(&parent.local_name(), tag);
     let created = match ns {
-        Namespace::Html => doc.create_element(tag),
-        ns => doc.create_element_ns(Some(ns.url()), tag),
+        Namespace::Html => doc.create_element(tag).ok(),
+        // A parser takes the whole name as the local name, the DOM API takes `a` in `a:b` as a prefix
+        _ if tag.contains(':') => None,
+        ns => doc.create_element_ns(Some(ns.url()), tag).ok(),
     };
     let el = match created {
-        Ok(el) => el,
-        Err(_) => create_element_via_html(doc, ns, tag, "")?,
+        Some(el) => el,
+        None => create_element_via_html(doc, ns, tag, "")?,
     };
     for attr in attrs {
         set_attribute(doc, &el, &attr.name, &attr.value)?;
-- 
2.43.0


From 1b57da2680aef228a8b532e54d7efc43b362feba Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:56:41 +0000
Subject: [PATCH 19/27] fix: doctype behind an XML declaration or an unusual
 comment was forgotten

---
 hotmeal/src/dom.rs | 44 ++++++++++++++++++++++++++++++++------------
 1 file changed, 32 insertions(+), 12 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index a3565e9..e55d38d 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1064,22 +1064,42 @@ impl Namespace {
     }
 }
 
+/// What follows the comment that `input` starts with, `None` if it doesn't start with one.
+///
+/// Apart from `<!-- -->`, the parser also makes comments of `<?xml ...?>`, `<!ELEMENT ...>`
+/// and the like.
+fn skip_comment(input: &str) -> Option<&str> {
+    let after = |text: &str, end: &str| text.find(end).map_or(text.len(), |at| at + end.len());
+    if let Some(text) = input.strip_prefix("<!--") {
+        for abrupt_end in [">", "->"] {
+            if let Some(rest) = text.strip_prefix(abrupt_end) {
+                return Some(rest);
+            }
+        }
+        let end = after(text, "-->").min(after(text, "--!>"));
+        return Some(&text[end..]);
+    }
+    let is_bogus = match input.strip_prefix('<')?.as_bytes() {
+        [b'!' | b'?', ..] => !is_doctype(input),
+        [b'/', c, ..] => !c.is_ascii_alphabetic(),
+        _ => false,
+    };
+    is_bogus.then(|| &input[after(input, ">")..])
+}
+
+fn is_doctype(input: &str) -> bool {
+    let doctype = b"<!doctype";
+    let bytes = input.as_bytes();
+    doctype.len() <= bytes.len() && bytes[..doctype.len()].eq_ignore_ascii_case(doctype)
+}
+
 fn has_doctype_prefix(input: &str) -> bool {
     // Whitespace and comments may come before the DOCTYPE
     let mut rest = input.trim_start_matches(|c: char| c.is_ascii_whitespace());
-    while let Some(comment) = rest.strip_prefix("<!--") {
-        let Some(end) = comment.find("-->") else {
-            return false;
-        };
-        rest = comment[end + "-->".len()..].trim_start_matches(|c: char| c.is_ascii_whitespace());
+    while let Some(after_comment) = skip_comment(rest) {
+        rest = after_comment.trim_start_matches(|c: char| c.is_ascii_whitespace());
     }
-    let bytes = rest.as_bytes();
-    let doctype = b"<!doctype";
-    doctype.len() <= bytes.len()
-        && bytes[..doctype.len()]
-            .iter()
-            .zip(doctype)
-            .all(|(b, d)| b.to_ascii_lowercase() == *d)
+    is_doctype(rest)
 }
 
 /// Parse HTML from a StrTendril with zero-copy borrowing.
-- 
2.43.0


From 65af1024ae75066b56c912f85ed01c60dc41bcec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:04:48 +0000
Subject: [PATCH 20/27] fix: bare content that mentions <body> or <html> in
 text was parsed like a whole document

---
 hotmeal/src/dom.rs | 48 +++++++++++++++++++++++++++++++++++++++++++++-
 1 file changed, 47 insertions(+), 1 deletion(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index e55d38d..28c7307 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -1192,9 +1192,55 @@ fn parse_fragment_in(
 }
 
 /// Check if input has HTML structure tags (<html> or <body>).
+///
+/// Comments, attribute values and raw text that merely mention them don't count.
 fn has_html_structure(input: &str) -> bool {
     let lower = input.to_ascii_lowercase();
-    lower.contains("<html") || lower.contains("<body")
+    let mut rest = lower.as_str();
+    while let Some(at) = rest.find('<') {
+        rest = &rest[at..];
+        if let Some(after_comment) = skip_comment(rest) {
+            rest = after_comment;
+            continue;
+        }
+        rest = &rest[1..];
+        let name_len = rest
+            .find(|c: char| c.is_ascii_whitespace() || matches!(c, '/' | '>'))
+            .unwrap_or(rest.len());
+        let name = &rest[..name_len];
+        if !name.starts_with(|c: char| c.is_ascii_alphabetic()) {
+            continue;
+        }
+        if matches!(name, "html" | "body") {
+            return true;
+        }
+        rest = skip_attributes(&rest[name_len..]);
+        if is_raw_text_element(name) || matches!(name, "title" | "textarea") {
+            let end = rest.find(&format!("</{name}"));
+            rest = &rest[end.unwrap_or(rest.len())..];
+        }
+    }
+    false
+}
+
+/// What follows the tag whose attributes `input` starts with.
+fn skip_attributes(input: &str) -> &str {
+    let mut rest = input;
+    while let Some(at) = rest.find(['>', '=']) {
+        let after = &rest[at + 1..];
+        if rest[at..].starts_with('>') {
+            return after;
+        }
+        let value = after.trim_start_matches(|c: char| c.is_ascii_whitespace());
+        rest = match value.chars().next() {
+            Some(quote @ ('"' | '\'')) => match value[1..].find(quote) {
+                Some(end) => &value[1 + end + 1..],
+                None => "",
+            },
+            _ => value,
+        };
+    }
+    ""
 }
 
 /// Owned element name wrapper
-- 
2.43.0


From 39ade839e1f55f24965157e9f15f0c6db72b86ae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:49:06 +0000
Subject: [PATCH 21/27] fix: quotes, backslashes, line breaks and </script> in
 a URL or selector broke the loader script

---
 hotmeal-server/src/lib.rs | 28 +++++++++++++++++++++++++---
 1 file changed, 25 insertions(+), 3 deletions(-)

diff --git a/hotmeal-server/src/lib.rs b/hotmeal-server/src/lib.rs
index 6d1d1dc..f6eb0b5 100644
--- a/hotmeal-server/src/lib.rs
+++ b/hotmeal-server/src/lib.rs
@@ -294,15 +294,37 @@ pub fn loader_script(
     mount_selector: &str,
     ws_url: &str,
 ) -> String {
+    let wasm_js_url = js_string(wasm_js_url);
+    let wasm_url = js_string(wasm_url);
+    let ws_url = js_string(ws_url);
+    let mount_selector = js_string(mount_selector);
     format!(
         r#"<script type="module">
-import init, {{ start_live_reload }} from "{wasm_js_url}";
-await init("{wasm_url}");
-start_live_reload("{ws_url}", "{mount_selector}");
+import init, {{ start_live_reload }} from {wasm_js_url};
+await init({wasm_url});
+start_live_reload({ws_url}, {mount_selector});
 </script>"#,
     )
 }
 
+/// Quote `value` as a JavaScript string literal that is safe inside a `<script>` element:
+/// no character of it can end the literal, the line, or the script.
+fn js_string(value: &str) -> String {
+    let mut out = String::with_capacity(value.len() + 2);
+    out.push('"');
+    for c in value.chars() {
+        match c {
+            '"' | '\\' => out.extend(['\\', c]),
+            '<' | '\u{2028}' | '\u{2029}' | '\0'..='\u{1f}' => {
+                out.push_str(&format!("\\u{:04x}", u32::from(c)));
+            }
+            _ => out.push(c),
+        }
+    }
+    out.push('"');
+    out
+}
+
 #[cfg(test)]
 mod tests {
     use super::*;
-- 
2.43.0


From 3bba3ccfe87a43c39d013bfb6cc2b1b0f344d413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:08 +0000
Subject: [PATCH 22/27] fix: patches that do not fit were half applied,
 accepted or panicked (native)

---
 hotmeal/src/dom.rs | 64 ++++++++++++++++++++++++++++++++--------------
 1 file changed, 45 insertions(+), 19 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 28c7307..3f251fd 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -456,6 +456,9 @@ impl<'a> Document<'a> {
         let position = path[path.len() - 1] as usize;
         let parent_path = &path[..path.len() - 1];
         let parent_id = self.navigate_slot_path(parent_path, slots)?;
+        if !matches!(self.get(parent_id).kind, NodeKind::Element(_)) {
+            return Err(DiffError::NotAnElement);
+        }
 
         Ok((parent_id, position))
     }
@@ -569,12 +572,7 @@ impl<'a> Document<'a> {
                 let path = &node.0.0;
                 // Navigate to the node and replace with placeholder
                 let node_id = self.navigate_slot_path(path, slots)?;
-                let empty_text = self.arena.new_node(NodeData {
-                    kind: NodeKind::Text(Stem::new()),
-                    ns: Namespace::Html,
-                });
-                node_id.insert_before(empty_text, &mut self.arena);
-                node_id.detach(&mut self.arena);
+                self.take_out(node_id, path, slots)?;
             }
             Patch::SetText { path, text } => {
                 let node_id = self.navigate_slot_path(&path.0, slots)?;
@@ -618,26 +616,26 @@ impl<'a> Document<'a> {
                 let from_path = &from.0.0;
                 let node_to_move = self.navigate_slot_path(from_path, slots)?;
 
-                // Replace source position with empty text (no shifting!)
-                // Exception: path of length 1 (just [slot]) means the slot root itself
-                let needs_replacement = from_path.len() > 1;
-
-                if needs_replacement {
-                    let empty_text = self.arena.new_node(NodeData {
-                        kind: NodeKind::Text(Stem::new()),
-                        ns: Namespace::Html,
-                    });
-                    node_to_move.insert_before(empty_text, &mut self.arena);
-                    node_to_move.detach(&mut self.arena);
-                } else {
-                    node_to_move.detach(&mut self.arena);
+                // Nothing is taken out before it is clear that there is a place to put it
+                let (_, position) = self.get_slot_parent(&to.0.0, slots)?;
+                if to.0.0[..to.0.0.len() - 1].starts_with(from_path) {
+                    return Err(DiffError::PathOutOfBounds { index: position });
                 }
 
+                self.take_out(node_to_move, from_path, slots)?;
                 self.insert_at(&to, node_to_move, detach_to_slot, slots)?;
             }
             Patch::UpdateProps { path, changes } => {
                 let node_id = self.navigate_slot_path(&path.0, slots)?;
                 let node_data = self.arena[node_id].get_mut();
+                let is_element = matches!(node_data.kind, NodeKind::Element(_));
+                for change in &changes {
+                    match change.name {
+                        PropKey::Text if is_element => return Err(DiffError::NotATextNode),
+                        PropKey::Attr(_) if !is_element => return Err(DiffError::NotAnElement),
+                        _ => {}
+                    }
+                }
 
                 // Handle text node updates
                 if let Some(text_change) = changes.iter().find(|c| matches!(c.name, PropKey::Text))
@@ -691,6 +689,9 @@ impl<'a> Document<'a> {
             }
             Patch::OpaqueChanged { path, content } => {
                 let node_id = self.navigate_slot_path(&path.0, slots)?;
+                if !matches!(self.get(node_id).kind, NodeKind::Element(_)) {
+                    return Err(DiffError::NotAnElement);
+                }
                 // Remove all existing children
                 let children: Vec<_> = node_id.children(&self.arena).collect();
                 for child in children {
@@ -718,6 +719,31 @@ impl<'a> Document<'a> {
         Ok(())
     }
 
+    /// Take the node at `path` out of its place. Nothing shifts: an empty text node stays there,
+    /// unless the node is the root of a slot, which is empty from then on.
+    fn take_out(
+        &mut self,
+        node_id: NodeId,
+        path: &[u32],
+        slots: &mut HashMap<u32, NodeId>,
+    ) -> Result<(), DiffError> {
+        match *path {
+            [] | [0] => return Err(DiffError::EmptyPath),
+            [slot] => {
+                slots.remove(&slot);
+            }
+            _ => {
+                let empty_text = self.arena.new_node(NodeData {
+                    kind: NodeKind::Text(Stem::new()),
+                    ns: Namespace::Html,
+                });
+                node_id.insert_before(empty_text, &mut self.arena);
+            }
+        }
+        node_id.detach(&mut self.arena);
+        Ok(())
+    }
+
     fn insert_at(
         &mut self,
         at: &NodeRef,
-- 
2.43.0


From 290bacaf71ee4c506da9a5b0adc7ca9fdedd6e47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:19:08 +0000
Subject: [PATCH 23/27] fix: patches that do not fit were half applied,
 accepted or panicked (browser)

---
 hotmeal-wasm/src/lib.rs | 43 +++++++++++++++++++++++++++++------------
 1 file changed, 31 insertions(+), 12 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index eba477e..df55a0f 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -394,6 +394,9 @@ fn apply_patch(
     match patch {
         Patch::SetText { path, text } => {
             let node = find_node(root, path, slots)?;
+            if node.dyn_ref::<Element>().is_some() {
+                return Err(JsValue::from_str("SetText: node is an element"));
+            }
             node.set_text_content(Some(text));
         }
 
@@ -409,6 +412,9 @@ fn apply_patch(
 
         Patch::Remove { node } => {
             let NodeRef(path) = node;
+            if matches!(path.0[..], [] | [0]) {
+                return Err(JsValue::from_str("Remove: path too short"));
+            }
             let slot = path.0[0];
             if slot == 0 {
                 let rel_path = NodePath(SmallVec::from_slice(&path.0[1..]));
@@ -418,7 +424,9 @@ fn apply_patch(
                     parent.replace_child(&empty_text, &target)?;
                 }
             } else if path.0.len() == 1 {
-                slots.take(slot);
+                slots
+                    .take(slot)
+                    .ok_or_else(|| JsValue::from_str(&format!("slot {} is empty", slot)))?;
             } else {
                 let slot_root = get_slot_root(root, slot, slots)?;
                 let rel_path = NodePath(SmallVec::from_slice(&path.0[1..]));
@@ -553,6 +561,13 @@ fn apply_patch(
 
         Patch::UpdateProps { path, changes } => {
             let node = find_node(root, path, slots)?;
+            let is_element = node.dyn_ref::<Element>().is_some();
+            if changes
+                .iter()
+                .any(|c| matches!(c.name, PropKey::Text) == is_element)
+            {
+                return Err(JsValue::from_str("UpdateProps: not that kind of node"));
+            }
 
             if let Some(text_change) = changes.iter().find(|c| matches!(c.name, PropKey::Text))
                 && let Some(v) = &text_change.value
@@ -593,6 +608,21 @@ fn apply_patch(
             let from_path = &from.0;
             let to_path = &to.0;
 
+            // Nothing is taken out before it is clear that there is a place to put it
+            if to_path.0.len() < 2 {
+                return Err(JsValue::from_str("Move: target path too short"));
+            }
+            let parent_path = NodePath(SmallVec::from_slice(&to_path.0[..to_path.0.len() - 1]));
+            let target_idx = to_path.0[to_path.0.len() - 1];
+            if parent_path.0.starts_with(&from_path.0) {
+                return Err(JsValue::from_str("Move: target is inside the moved node"));
+            }
+
+            let parent_node = find_node(root, &parent_path, slots)?;
+            let parent_el = parent_node
+                .dyn_ref::<Element>()
+                .ok_or_else(|| JsValue::from_str("Move: parent is not an element"))?;
+
             let node = if from_path.0.len() == 1 {
                 let slot = from_path.0[0];
                 slots
@@ -607,17 +637,6 @@ fn apply_patch(
                 node
             };
 
-            if to_path.0.len() < 2 {
-                return Err(JsValue::from_str("Move: target path too short"));
-            }
-            let parent_path = NodePath(SmallVec::from_slice(&to_path.0[..to_path.0.len() - 1]));
-            let target_idx = to_path.0[to_path.0.len() - 1];
-
-            let parent_node = find_node(root, &parent_path, slots)?;
-            let parent_el = parent_node
-                .dyn_ref::<Element>()
-                .ok_or_else(|| JsValue::from_str("Move: parent is not an element"))?;
-
             insert_at_position(
                 doc,
                 parent_el,
-- 
2.43.0


From aae9a899eb522e12aec58d278c785561ad146b84 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:47 +0000
Subject: [PATCH 24/27] fix: an insertion that names no slot shifted its
 siblings instead of replacing the node at its place (native)

---
 hotmeal/src/dom.rs | 24 +++++++++++-------------
 1 file changed, 11 insertions(+), 13 deletions(-)

diff --git a/hotmeal/src/dom.rs b/hotmeal/src/dom.rs
index 3f251fd..588536a 100644
--- a/hotmeal/src/dom.rs
+++ b/hotmeal/src/dom.rs
@@ -761,26 +761,24 @@ impl<'a> Document<'a> {
             position
         );
 
-        if let Some(slot) = detach_to_slot {
-            let children: Vec<_> = parent_id.children(&self.arena).collect();
+        // What is at the position already is displaced, whether or not a slot keeps it
+        let displaced = parent_id.children(&self.arena).nth(position);
+
+        self.insert_at_position(parent_id, position, node_to_insert)?;
+
+        if let Some(displaced) = displaced {
             debug!(
-                "insert_at: detaching child {} at pos {} to slot{}",
-                children
-                    .get(position)
-                    .map(|c| self.node_label(*c))
-                    .unwrap_or_else(|| "?".to_string()),
+                "insert_at: detaching child {} at pos {} to slot {:?}",
+                self.node_label(displaced),
                 position,
-                slot
+                detach_to_slot
             );
-            if position < children.len() {
-                let displaced = children[position];
-                displaced.detach(&mut self.arena);
+            displaced.detach(&mut self.arena);
+            if let Some(slot) = detach_to_slot {
                 slots.insert(slot, displaced);
             }
         }
 
-        self.insert_at_position(parent_id, position, node_to_insert)?;
-
         Ok(())
     }
 
-- 
2.43.0


From 401e90d0dd477b5339c6f4873f1d49963265c170 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:47 +0000
Subject: [PATCH 25/27] fix: the attributes of a new body were lost when the
 old document has none

---
 hotmeal/src/diff.rs | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/hotmeal/src/diff.rs b/hotmeal/src/diff.rs
index c40f44b..e1d96c9 100644
--- a/hotmeal/src/diff.rs
+++ b/hotmeal/src/diff.rs
@@ -1061,6 +1061,19 @@ pub fn diff<'a>(old: &Document<'a>, new: &Document<'a>) -> Result<Vec<Patch<'a>>
             // Old has no body, new has body - insert all new body children
             let new_body_id = new.body().unwrap();
             let mut patches = Vec::new();
+            // The applier creates a body without attributes
+            if let NodeKind::Element(body) = &new.get(new_body_id).kind
+                && !body.attrs.is_empty()
+            {
+                let changes = body.attrs.iter().map(|(name, value)| PropChange {
+                    name: PropKey::Attr(name.clone()),
+                    value: Some(value.clone()),
+                });
+                patches.push(Patch::UpdateProps {
+                    path: NodePath(smallvec![0]),
+                    changes: changes.collect(),
+                });
+            }
             for (pos, child_id) in new_body_id.children(&new.arena).enumerate() {
                 patches.push(create_insert_patch(new, child_id, pos)?);
             }
-- 
2.43.0


From e8b2318c889c658f5c2574169703114d07caed9f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:47 +0000
Subject: [PATCH 26/27] fix: a node could be moved below one of its own
 descendants

---
 cinereus/src/chawathe.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/cinereus/src/chawathe.rs b/cinereus/src/chawathe.rs
index b28a8ca..a57aec0 100644
--- a/cinereus/src/chawathe.rs
+++ b/cinereus/src/chawathe.rs
@@ -290,8 +290,13 @@ where
     }
 
     // Phase 4: MOVE - matched nodes where parent or position changed
+    // Process parents in B before their children: all of the new ancestors of a node are in place
+    // when it moves, so it never moves below one of its own descendants
     debug!("Phase 4: MOVE - checking {} matched pairs", matching.len());
-    for (a_id, b_id) in matching.pairs() {
+    for b_id in tree_b.iter() {
+        let Some(a_id) = matching.get_a(b_id) else {
+            continue;
+        };
         debug!(
             a = usize::from(a_id),
             b = usize::from(b_id),
-- 
2.43.0


From 189572849775af18fa12fdd935e0bd0fe04f2a3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:46:47 +0000
Subject: [PATCH 27/27] fix: a large slot number in a patch exhausted the
 memory of the browser

---
 hotmeal-wasm/src/lib.rs | 24 +++++++++---------------
 1 file changed, 9 insertions(+), 15 deletions(-)

diff --git a/hotmeal-wasm/src/lib.rs b/hotmeal-wasm/src/lib.rs
index df55a0f..a568923 100644
--- a/hotmeal-wasm/src/lib.rs
+++ b/hotmeal-wasm/src/lib.rs
@@ -25,6 +25,7 @@ use hotmeal::{InsertContent, Namespace, NodeId, QualName, StrTendril, parse};
 #[cfg(target_arch = "wasm32")]
 use hotmeal_server::LiveReloadEvent;
 use smallvec::SmallVec;
+use std::collections::HashMap;
 use tracing::{debug, trace};
 use wasm_bindgen::prelude::*;
 use web_sys::{Document, Element, Node};
@@ -72,34 +73,27 @@ pub fn diff_html_patches(old_html: &str, new_html: &str) -> Result<Vec<Patch<'st
 ///
 /// Use this with `apply_patches_with_slots` when applying patches incrementally.
 pub struct Slots {
-    nodes: Vec<Option<Node>>,
+    // A map and not a vector: slot numbers come from outside, and need not be small
+    nodes: HashMap<u32, Node>,
 }
 
 impl Slots {
     pub fn new() -> Self {
-        Self { nodes: Vec::new() }
+        Self {
+            nodes: HashMap::new(),
+        }
     }
 
     pub fn store(&mut self, slot: u32, node: Node) {
-        let idx = slot as usize;
-        if idx >= self.nodes.len() {
-            self.nodes.resize(idx + 1, None);
-        }
-        self.nodes[idx] = Some(node);
+        self.nodes.insert(slot, node);
     }
 
     pub fn take(&mut self, slot: u32) -> Option<Node> {
-        let idx = slot as usize;
-        if idx < self.nodes.len() {
-            self.nodes[idx].take()
-        } else {
-            None
-        }
+        self.nodes.remove(&slot)
     }
 
     pub fn get(&self, slot: u32) -> Option<&Node> {
-        let idx = slot as usize;
-        self.nodes.get(idx).and_then(|n| n.as_ref())
+        self.nodes.get(&slot)
     }
 }
 
-- 
2.43.0

