From 30a1a8a0a4e0c28f2cbbd8606bcc79233475e847 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:45 +0000
Subject: [PATCH 01/30] fix: Name parsing no longer panics on a name starting
 with a multi-byte character

---
 src/shared/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/text.rs b/src/shared/text.rs
index 4eddaed..9095eec 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -389,7 +389,7 @@ pub(crate) fn is_xml_name_char(c: char) -> bool {
 ///
 pub(crate) fn is_xml_name(s: impl AsRef<str>) -> bool {
     let s = s.as_ref();
-    !s.is_empty() && s.starts_with(is_xml_name_start_char) && s[1..].chars().all(is_xml_name_char)
+    s.starts_with(is_xml_name_start_char) && s.chars().skip(1).all(is_xml_name_char)
 }
 
 ///
-- 
2.43.0


From ea365f3f9896632054944c58d736be90dd999b75 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:00 +0000
Subject: [PATCH 02/30] fix: XML Char productions extend to U+10FFFF

---
 src/shared/text.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/shared/text.rs b/src/shared/text.rs
index 9095eec..fea2fe2 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -268,7 +268,7 @@ pub(crate) fn is_xml_10_char(c: char) -> bool {
         || c == '\u{000D}'
         || ('\u{0020}'..='\u{D7FF}').contains(&c)
         || ('\u{E000}'..='\u{FFFD}').contains(&c)
-        || ('\u{10000}'..='\u{10FFF}').contains(&c)
+        || ('\u{10000}'..='\u{10FFFF}').contains(&c)
 }
 
 #[allow(dead_code)]
@@ -296,7 +296,7 @@ pub(crate) fn is_xml_11_char(c: char) -> bool {
     //
     ('\u{0001}'..='\u{D7FF}').contains(&c)
         || ('\u{E000}'..='\u{FFFD}').contains(&c)
-        || ('\u{10000}'..='\u{10FFF}').contains(&c)
+        || ('\u{10000}'..='\u{10FFFF}').contains(&c)
 }
 
 ///
-- 
2.43.0


From 5d404c24a507f01043cae5df84f0ba30e90e8c63 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:02 +0000
Subject: [PATCH 03/30] fix: character data offsets that overflow or split a
 character report IndexSize instead of panicking

---
 src/level2/trait_impls.rs | 28 +++++++++++++++-------------
 1 file changed, 15 insertions(+), 13 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 23d0927..6a09d39 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -142,7 +142,7 @@ impl CDataSection for RefNode {}
 
 impl CharacterData for RefNode {
     fn substring_data(&self, offset: usize, count: usize) -> Result<String> {
-        if offset + count == offset {
+        if count == 0 {
             return Ok(String::new());
         }
         let ref_self = self.borrow();
@@ -152,13 +152,15 @@ impl CharacterData for RefNode {
                 Err(Error::IndexSize)
             }
             Some(data) => {
-                if offset >= data.len() {
+                let end = offset.saturating_add(count).min(data.len());
+                if offset >= data.len()
+                    || !data.is_char_boundary(offset)
+                    || !data.is_char_boundary(end)
+                {
                     warn!("{}", MSG_INDEX_ERROR);
                     Err(Error::IndexSize)
-                } else if offset + count >= data.len() {
-                    Ok(data[offset..].to_string())
                 } else {
-                    Ok(data[offset..offset + count].to_string())
+                    Ok(data[offset..end].to_string())
                 }
             }
         }
@@ -184,7 +186,7 @@ impl CharacterData for RefNode {
     }
 
     fn delete_data(&mut self, offset: usize, count: usize) -> Result<()> {
-        if offset + count == offset {
+        if count == 0 {
             return Ok(());
         }
         const NOTHING: &str = "";
@@ -195,7 +197,7 @@ impl CharacterData for RefNode {
         let mut mut_self = self.borrow_mut();
         match &mut_self.i_value {
             None => {
-                if offset + count != 0 {
+                if offset != 0 || count != 0 {
                     warn!("{}", MSG_INDEX_ERROR);
                     Err(Error::IndexSize)
                 } else {
@@ -204,16 +206,16 @@ impl CharacterData for RefNode {
                 }
             }
             Some(old_data) => {
-                if offset >= old_data.len() {
+                let end = offset.saturating_add(count).min(old_data.len());
+                if offset >= old_data.len()
+                    || !old_data.is_char_boundary(offset)
+                    || !old_data.is_char_boundary(end)
+                {
                     warn!("{}", MSG_INDEX_ERROR);
                     Err(Error::IndexSize)
                 } else {
                     let mut new_data = old_data.clone();
-                    if offset + count >= old_data.len() {
-                        new_data.replace_range(offset.., replace_data);
-                    } else {
-                        new_data.replace_range(offset..offset + count, replace_data);
-                    }
+                    new_data.replace_range(offset..end, replace_data);
                     mut_self.i_value = Some(new_data);
                     Ok(())
                 }
-- 
2.43.0


From c08fed3225018661a1766fc74e3763492e3457d5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:26 +0000
Subject: [PATCH 04/30] fix: a character data offset equal to the length is in
 range

---
 src/level2/trait_impls.rs | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 6a09d39..46044cf 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -153,7 +153,7 @@ impl CharacterData for RefNode {
             }
             Some(data) => {
                 let end = offset.saturating_add(count).min(data.len());
-                if offset >= data.len()
+                if offset > data.len()
                     || !data.is_char_boundary(offset)
                     || !data.is_char_boundary(end)
                 {
@@ -207,7 +207,7 @@ impl CharacterData for RefNode {
             }
             Some(old_data) => {
                 let end = offset.saturating_add(count).min(old_data.len());
-                if offset >= old_data.len()
+                if offset > old_data.len()
                     || !old_data.is_char_boundary(offset)
                     || !old_data.is_char_boundary(end)
                 {
-- 
2.43.0


From 6526e6a8304e495134bf8b59aa7dea40cebf9de7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:27 +0000
Subject: [PATCH 05/30] fix: Text::split measures its offset against the
 unescaped data

---
 src/level2/trait_impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 46044cf..2b25a14 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1127,7 +1127,8 @@ impl Text for RefNode {
     fn split(&mut self, offset: usize) -> Result<RefNode> {
         let new_data = {
             let text = as_character_data_mut(self)?;
-            let length = text.length();
+            // The unescaped length, offsets are applied to the unescaped data.
+            let length = text.node_value().map_or(0, |data| data.len());
             if offset >= length {
                 String::new()
             } else {
-- 
2.43.0


From 23c2a50ddcefabb6bc9fc7b9398b19c1101ea7d3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:29 +0000
Subject: [PATCH 06/30] fix: document_element is the element child, not the
 first child

---
 src/level2/trait_impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 2b25a14..e856e4f 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -236,7 +236,7 @@ impl Document for RefNode {
     }
 
     fn document_element(&self) -> Option<RefNode> {
-        self.child_nodes().first().cloned()
+        self.child_nodes().into_iter().find(is_element)
     }
 
     fn implementation(&self) -> &dyn DOMImplementation<NodeRef = RefNode> {
-- 
2.43.0


From 7b7c46b06d4b6e1be846b7311da83384749554ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:55 +0000
Subject: [PATCH 07/30] fix: insert_before rejects a node's own ancestors and
 keeps its position when moving a sibling

---
 src/level2/trait_impls.rs | 63 +++++++++++++++++++++++++++++----------
 1 file changed, 47 insertions(+), 16 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index e856e4f..dba9f58 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -935,6 +935,11 @@ impl Node for RefNode {
             return Err(Error::HierarchyRequest);
         }
 
+        if is_self_or_ancestor(&new_child, self) {
+            warn!("cannot add a node to itself, or to one of its descendants");
+            return Err(Error::HierarchyRequest);
+        }
+
         //
         // Special case for Document only.
         //
@@ -950,26 +955,26 @@ impl Node for RefNode {
         }
 
         //
-        // Find the index in `child_nodes` of the `ref_child`.
+        // Ensure that the `ref_child` is in `child_nodes`.
         //
-        let insert_position = match ref_child {
-            None => None,
-            Some(ref_child) => match self
-                .borrow()
-                .i_child_nodes
-                .iter()
-                .position(|child| child == &ref_child)
-            {
-                None => {
-                    warn!("insert_before: ref_child not found in `child_nodes`");
-                    return Error::NotFound.into();
-                }
-                position => position,
-            },
-        };
+        if let Some(ref_child) = &ref_child {
+            if !self.borrow().i_child_nodes.contains(ref_child) {
+                warn!("insert_before: ref_child not found in `child_nodes`");
+                return Error::NotFound.into();
+            }
+        }
 
         check_same_document(self, &new_child)?;
 
+        //
+        // A child inserted before itself stays before its next sibling
+        //
+        let ref_child = if ref_child.as_ref() == Some(&new_child) {
+            new_child.next_sibling()
+        } else {
+            ref_child
+        };
+
         //
         // Remove from it's current parent
         //
@@ -980,6 +985,17 @@ impl Node for RefNode {
             }
         }
 
+        //
+        // Find the index in `child_nodes` of the `ref_child`, this may have changed if the new
+        // child was one of its siblings.
+        //
+        let insert_position = ref_child.and_then(|ref_child| {
+            self.borrow()
+                .i_child_nodes
+                .iter()
+                .position(|child| child == &ref_child)
+        });
+
         //
         // update new child with references from self
         //
@@ -1246,6 +1262,21 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
     }
     Ok(())
 }
+
+//
+// Is `node` the same node as `descendant`, or one of its ancestors.
+//
+fn is_self_or_ancestor(node: &RefNode, descendant: &RefNode) -> bool {
+    let mut current = Some(descendant.clone());
+    while let Some(candidate) = current {
+        if &candidate == node {
+            return true;
+        }
+        current = candidate.parent_node();
+    }
+    false
+}
+
 //
 // From [https://www.w3.org/TR/DOM-Level-2-Core/core.html#ID-1590626202]
 //
-- 
2.43.0


From 4d23efeca650bf46813d7053da4ee2e28cf57ab6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:19 +0000
Subject: [PATCH 08/30] fix: replace_child checks the new child before removing
 the old one

---
 src/level2/trait_impls.rs | 24 ++++++++++++++++++++++--
 1 file changed, 22 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index dba9f58..6521947 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1030,7 +1030,7 @@ impl Node for RefNode {
     }
 
     fn replace_child(&mut self, new_child: RefNode, old_child: RefNode) -> Result<RefNode> {
-        if !is_child_allowed(self, &new_child) {
+        if !is_child_allowed(self, &new_child) || is_self_or_ancestor(&new_child, self) {
             return Err(Error::HierarchyRequest);
         }
         let exists = {
@@ -1038,7 +1038,27 @@ impl Node for RefNode {
             ref_self.i_child_nodes.contains(&old_child.clone())
         };
         if exists {
-            let next_node = old_child.next_sibling();
+            //
+            // Ensure the insert will succeed, before removing `old_child`.
+            //
+            if is_document(self)
+                && is_element(&new_child)
+                && self
+                    .child_nodes()
+                    .iter()
+                    .any(|n| n.node_type() == NodeType::Element && n != &old_child)
+            {
+                warn!("cannot add more than one element to a document");
+                return Error::HierarchyRequest.into();
+            }
+            check_same_document(self, &new_child)?;
+            if new_child == old_child {
+                return Ok(old_child);
+            }
+            let mut next_node = old_child.next_sibling();
+            if next_node.as_ref() == Some(&new_child) {
+                next_node = new_child.next_sibling();
+            }
             let removed = self.remove_child(old_child)?;
             let _safe_to_ignore = self.insert_before(new_child, next_node)?;
             Ok(removed)
-- 
2.43.0


From 79e63a315919a36cb56a86c4e3602bf06e160591 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:21 +0000
Subject: [PATCH 09/30] fix: the document element may be moved within its
 document

---
 src/level2/trait_impls.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 6521947..665b122 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -948,7 +948,7 @@ impl Node for RefNode {
             && self
                 .child_nodes()
                 .iter()
-                .any(|n| n.node_type() == NodeType::Element)
+                .any(|n| n.node_type() == NodeType::Element && n != &new_child)
         {
             warn!("cannot add more than one element to a document");
             return Error::HierarchyRequest.into();
@@ -1046,7 +1046,9 @@ impl Node for RefNode {
                 && self
                     .child_nodes()
                     .iter()
-                    .any(|n| n.node_type() == NodeType::Element && n != &old_child)
+                    .any(|n| {
+                        n.node_type() == NodeType::Element && n != &old_child && n != &new_child
+                    })
             {
                 warn!("cannot add more than one element to a document");
                 return Error::HierarchyRequest.into();
-- 
2.43.0


From 7c726a85318f6650a80654289c78c990fd72755f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:22 +0000
Subject: [PATCH 10/30] fix: inserting a node whose document has been dropped
 no longer panics

---
 src/level2/trait_impls.rs | 11 ++++-------
 1 file changed, 4 insertions(+), 7 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 665b122..18c9e5f 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1257,8 +1257,7 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
             if !match child_document {
                 None => true,
                 Some(child_document) => {
-                    let child_document = child_document.clone().upgrade().unwrap();
-                    self_node == &child_document
+                    child_document.clone().upgrade().as_ref() == Some(self_node)
                 }
             } {
                 warn!("Error::WrongDocument: child could not be added to the document node.");
@@ -1271,11 +1270,9 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
                 (None, None) => true,
                 (Some(_), None) => true,
                 (None, Some(_)) => false,
-                (Some(self_document), Some(child_document)) => {
-                    let self_document = self_document.clone().upgrade().unwrap();
-                    let child_document = child_document.clone().upgrade().unwrap();
-                    self_document == child_document
-                }
+                (Some(self_document), Some(child_document)) => self_document
+                    .as_inner()
+                    .ptr_eq(child_document.as_inner()),
             } {
                 warn!("Error::WrongDocument: child could not be added to the current node.");
                 return Err(Error::WrongDocument);
-- 
2.43.0


From 67a29f42cda606e3560e8b2b724660c047fca755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:44:40 +0000
Subject: [PATCH 11/30] fix: remove_attribute_node checks membership and
 releases the attribute's owner, namespace and ID

---
 src/level2/trait_impls.rs | 87 +++++++++++++++++++++++++++++----------
 1 file changed, 66 insertions(+), 21 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 18c9e5f..4e32a2f 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -568,19 +568,13 @@ impl Element for RefNode {
 
     fn remove_attribute_node(&mut self, old_attribute: RefNode) -> Result<RefNode> {
         if is_element(self) {
-            let mut mut_self = self.borrow_mut();
-            if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
-                let _safe_to_ignore = i_attributes.remove(&old_attribute.node_name());
-                let mut_old = old_attribute.clone();
-                let mut mut_old = mut_old.borrow_mut();
-                mut_old.i_parent_node = None;
-                // TODO: remove from Element::namespaces
-                // TODO: remove from Document::id_map
-                Ok(old_attribute)
-            } else {
-                warn!("{}", MSG_INVALID_EXTENSION);
-                Err(Error::Syntax)
+            let name = old_attribute.node_name();
+            if self.attributes().get(&name) != Some(&old_attribute) {
+                warn!("remove_attribute_node: old_attribute is not an attribute of this element");
+                return Err(Error::NotFound);
             }
+            detach_attribute(self, &old_attribute);
+            Ok(old_attribute)
         } else {
             warn!("{}", MSG_INVALID_NODE_TYPE);
             Err(Error::InvalidState)
@@ -1043,12 +1037,9 @@ impl Node for RefNode {
             //
             if is_document(self)
                 && is_element(&new_child)
-                && self
-                    .child_nodes()
-                    .iter()
-                    .any(|n| {
-                        n.node_type() == NodeType::Element && n != &old_child && n != &new_child
-                    })
+                && self.child_nodes().iter().any(|n| {
+                    n.node_type() == NodeType::Element && n != &old_child && n != &new_child
+                })
             {
                 warn!("cannot add more than one element to a document");
                 return Error::HierarchyRequest.into();
@@ -1270,9 +1261,9 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
                 (None, None) => true,
                 (Some(_), None) => true,
                 (None, Some(_)) => false,
-                (Some(self_document), Some(child_document)) => self_document
-                    .as_inner()
-                    .ptr_eq(child_document.as_inner()),
+                (Some(self_document), Some(child_document)) => {
+                    self_document.as_inner().ptr_eq(child_document.as_inner())
+                }
             } {
                 warn!("Error::WrongDocument: child could not be added to the current node.");
                 return Err(Error::WrongDocument);
@@ -1282,6 +1273,60 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
     Ok(())
 }
 
+//
+// Is an attribute with this name an ID, according to the options of the element's document.
+//
+fn is_document_id(element: &RefNode, name: &Name) -> bool {
+    let lax = match element.owner_document() {
+        None => return false,
+        Some(document) => {
+            if let Extension::Document { i_options, .. } = &document.borrow().i_extension {
+                i_options.has_assume_ids()
+            } else {
+                warn!("{}", MSG_INVALID_EXTENSION);
+                false
+            }
+        }
+    };
+    name.is_id_attribute(lax)
+}
+
+//
+// Remove an attribute from its element, and so from the element's namespace mapping and the
+// document's ID mapping.
+//
+fn detach_attribute(element: &mut RefNode, attribute: &RefNode) {
+    let name = attribute.node_name();
+
+    if name.is_namespace_attribute() {
+        if let Ok(as_namespaced) = as_element_namespaced_mut(element) {
+            let _safe_to_ignore = as_namespaced.remove_mapping(name.prefix().as_deref());
+        }
+    }
+
+    if is_document_id(element, &name) {
+        if let (Some(document), Some(id_value)) =
+            (element.owner_document(), Attribute::value(attribute))
+        {
+            if let Extension::Document { i_id_map, .. } = &mut document.borrow_mut().i_extension {
+                i_id_map.retain(|id, weak_ref| {
+                    id != &id_value || weak_ref.clone().upgrade().as_ref() != Some(element)
+                });
+            }
+        }
+    }
+
+    if let Extension::Element { i_attributes, .. } = &mut element.borrow_mut().i_extension {
+        let _safe_to_ignore = i_attributes.remove(&name);
+    }
+    if let Extension::Attribute {
+        i_owner_element, ..
+    } = &mut attribute.borrow_mut().i_extension
+    {
+        *i_owner_element = None;
+    }
+}
+
 //
 // Is `node` the same node as `descendant`, or one of its ancestors.
 //
-- 
2.43.0


From d22ace824ced00b10c7f249285f66bfd1dd59acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:27 +0000
Subject: [PATCH 12/30] fix: set_attribute_node rejects attributes in use,
 checks IDs before any change, and maps xmlns prefixes by their local name

---
 src/level2/trait_impls.rs | 105 ++++++++++++++++++++++----------------
 1 file changed, 61 insertions(+), 44 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 4e32a2f..f0140b7 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -489,6 +489,43 @@ impl Element for RefNode {
         if is_element(self) && is_attribute(&new_attribute) {
             check_same_document(self, &new_attribute)?;
 
+            match new_attribute.owner_element() {
+                Some(owner_element) if &owner_element != self => {
+                    warn!("set_attribute_node: attribute is in use by another element");
+                    return Err(Error::InUseAttribute);
+                }
+                _ => (),
+            }
+
+            let name: Name = new_attribute.node_name();
+
+            //
+            // An ID may only be used by one element in a document
+            //
+            let id_value = if is_document_id(self, &name) {
+                Attribute::value(&new_attribute)
+            } else {
+                None
+            };
+            if let (Some(document), Some(id_value)) = (self.owner_document(), &id_value) {
+                if let Extension::Document { i_id_map, .. } = &document.borrow().i_extension {
+                    if let Some(weak_ref) = i_id_map.get(id_value) {
+                        if weak_ref.clone().upgrade().as_ref() != Some(self) {
+                            warn!("{}", MSG_DUPLICATE_ID);
+                            return Err(Error::Syntax);
+                        }
+                    }
+                }
+            }
+
+            //
+            // Remove any attribute this one replaces
+            //
+            let replaced = self.attributes().get(&name).cloned();
+            if let Some(replaced) = replaced {
+                detach_attribute(self, &replaced);
+            }
+
             //
             // Set the attribute's owner. This is *not* the same as parent which remains `None`.
             //
@@ -504,57 +541,30 @@ impl Element for RefNode {
                 }
             }
 
-            let name: Name = new_attribute.node_name();
             if name.is_namespace_attribute() {
                 //
                 // Add to the element's namespace mapping hash
                 //
-                let attribute = as_attribute(&new_attribute).unwrap();
-                let namespace_uri = attribute.value().unwrap();
-
-                let as_namespaced = as_element_namespaced_mut(self).unwrap();
-                let _ignore = match &name.prefix() {
-                    None => as_namespaced.insert_mapping(None, &namespace_uri),
-                    Some(prefix) => as_namespaced.insert_mapping(Some(prefix), &namespace_uri),
-                }?;
+                if let Some(namespace_uri) = Attribute::value(&new_attribute) {
+                    let as_namespaced = as_element_namespaced_mut(self).unwrap();
+                    let _ignore =
+                        as_namespaced.insert_mapping(mapped_prefix(&name), &namespace_uri)?;
+                }
             }
 
-            let mut mut_self = self.borrow_mut();
-            if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
-                let _safe_to_ignore =
-                    i_attributes.insert(new_attribute.node_name(), new_attribute.clone());
+            //
+            // Add to the owning document's id_map hash
+            //
+            if let (Some(document), Some(id_value)) = (self.owner_document(), id_value) {
+                if let Extension::Document { i_id_map, .. } = &mut document.borrow_mut().i_extension
                 {
-                    //
-                    // Add to the owning document's id_map hash
-                    //
-                    let attribute = as_attribute(&new_attribute).unwrap();
-                    let document = attribute.owner_document().unwrap();
-                    let mut mut_document = document.borrow_mut();
-                    let lax =
-                        if let Extension::Document { i_options, .. } = &mut_document.i_extension {
-                            i_options.has_assume_ids()
-                        } else {
-                            warn!("{}", MSG_INVALID_EXTENSION);
-                            false
-                        };
-                    if name.is_id_attribute(lax) {
-                        //
-                        // Update the document ID mapping
-                        //
-                        if let Extension::Document { i_id_map, .. } = &mut mut_document.i_extension
-                        {
-                            let id_value = attribute.value().unwrap();
-                            if i_id_map.contains_key(&id_value) {
-                                warn!("{}", MSG_DUPLICATE_ID);
-                                return Err(Error::Syntax);
-                            }
-                            let _safe_to_ignore =
-                                i_id_map.insert(id_value, self.clone().downgrade());
-                        } else {
-                            warn!("{}", MSG_INVALID_EXTENSION);
-                        }
-                    }
+                    let _safe_to_ignore = i_id_map.insert(id_value, self.clone().downgrade());
                 }
+            }
+
+            let mut mut_self = self.borrow_mut();
+            if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
+                let _safe_to_ignore = i_attributes.insert(name, new_attribute.clone());
                 Ok(new_attribute)
             } else {
                 warn!("{}", MSG_INVALID_EXTENSION);
@@ -1273,6 +1283,13 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
     Ok(())
 }
 
+//
+// The prefix an `xmlns` attribute maps, `None` for the default namespace.
+//
+fn mapped_prefix(name: &Name) -> Option<&str> {
+    name.prefix().as_ref().map(|_| name.local_name().as_str())
+}
+
 //
 // Is an attribute with this name an ID, according to the options of the element's document.
 //
@@ -1300,7 +1317,7 @@ fn detach_attribute(element: &mut RefNode, attribute: &RefNode) {
 
     if name.is_namespace_attribute() {
         if let Ok(as_namespaced) = as_element_namespaced_mut(element) {
-            let _safe_to_ignore = as_namespaced.remove_mapping(name.prefix().as_deref());
+            let _safe_to_ignore = as_namespaced.remove_mapping(mapped_prefix(&name));
         }
     }
 
-- 
2.43.0


From 76c98f85d73f6264e85fc1b7cb816e33a97dd21d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:29 +0000
Subject: [PATCH 13/30] fix: set_attribute_node replaces an attribute with the
 same qualified name

---
 src/level2/trait_impls.rs | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index f0140b7..2235a2d 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -519,11 +519,12 @@ impl Element for RefNode {
             }
 
             //
-            // Remove any attribute this one replaces
+            // Remove any attribute this one replaces, by qualified name or by namespace
             //
-            let replaced = self.attributes().get(&name).cloned();
-            if let Some(replaced) = replaced {
-                detach_attribute(self, &replaced);
+            for (other, replaced) in self.attributes() {
+                if is_same_attribute(&other, &name) {
+                    detach_attribute(self, &replaced);
+                }
             }
 
             //
@@ -1283,6 +1284,17 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
     Ok(())
 }
 
+//
+// Do these names denote the same attribute of an element; either they have the same qualified
+// name, or the same namespace URI and local name.
+//
+fn is_same_attribute(left: &Name, right: &Name) -> bool {
+    left.to_string() == right.to_string()
+        || (left.namespace_uri().is_some()
+            && left.namespace_uri() == right.namespace_uri()
+            && left.local_name() == right.local_name())
+}
+
 //
 // The prefix an `xmlns` attribute maps, `None` for the default namespace.
 //
-- 
2.43.0


From 98e8954be10977eaf13612805ac6181a44d63239 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:50 +0000
Subject: [PATCH 14/30] fix: clone_node copies attributes and links the copies
 to the clone

---
 src/level2/node_impl.rs   |  9 ++++++---
 src/level2/trait_impls.rs | 21 +++++++++++++++++++--
 2 files changed, 25 insertions(+), 5 deletions(-)

diff --git a/src/level2/node_impl.rs b/src/level2/node_impl.rs
index 1346e7a..25971c1 100644
--- a/src/level2/node_impl.rs
+++ b/src/level2/node_impl.rs
@@ -308,8 +308,8 @@ impl NodeImpl {
     pub(crate) fn clone_node(&self, deep: bool) -> Self {
         let extension = match &self.i_extension {
             Extension::None => Extension::None,
-            Extension::Attribute { i_owner_element } => Extension::Attribute {
-                i_owner_element: i_owner_element.clone(),
+            Extension::Attribute { .. } => Extension::Attribute {
+                i_owner_element: None,
             },
             Extension::Document {
                 i_implementation,
@@ -341,7 +341,10 @@ impl NodeImpl {
                 i_attributes,
                 i_namespaces,
             } => Extension::Element {
-                i_attributes: i_attributes.clone(),
+                i_attributes: i_attributes
+                    .iter()
+                    .map(|(name, node)| (name.clone(), node.clone_node(true).unwrap()))
+                    .collect(),
                 i_namespaces: i_namespaces.clone(),
             },
             entity @ Extension::Entity { .. } => entity.clone(),
diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 2235a2d..f2a1923 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1107,8 +1107,25 @@ impl Node for RefNode {
 
     fn clone_node(&self, deep: bool) -> Option<RefNode> {
         let ref_self = self.borrow();
-        let new_node = ref_self.clone_node(deep);
-        Some(RefNode::new(new_node))
+        let new_node = RefNode::new(ref_self.clone_node(deep));
+        //
+        // The clone, not this node, is the parent of the cloned children and the owner of the
+        // cloned attributes.
+        //
+        for child in &new_node.borrow().i_child_nodes {
+            child.borrow_mut().i_parent_node = Some(new_node.clone().downgrade());
+        }
+        if let Extension::Element { i_attributes, .. } = &new_node.borrow().i_extension {
+            for attribute in i_attributes.values() {
+                if let Extension::Attribute {
+                    i_owner_element, ..
+                } = &mut attribute.borrow_mut().i_extension
+                {
+                    *i_owner_element = Some(new_node.clone().downgrade());
+                }
+            }
+        }
+        Some(new_node)
     }
 
     fn normalize(&mut self) {
-- 
2.43.0


From 9f22ecbf6b6eb4bdc9a02fb9ce48a165f853850a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:06 +0000
Subject: [PATCH 15/30] fix: normalize covers the full depth of the sub-tree
 and attributes

---
 src/level2/trait_impls.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index f2a1923..ca1bffc 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1129,7 +1129,10 @@ impl Node for RefNode {
     }
 
     fn normalize(&mut self) {
-        for child_node in self.child_nodes() {
+        for mut attribute_node in self.attributes().into_values() {
+            attribute_node.normalize();
+        }
+        for mut child_node in self.child_nodes() {
             if is_text(&child_node) {
                 if CharacterData::length(&child_node) == 0 {
                     if self.remove_child(child_node).is_err() {
@@ -1149,6 +1152,8 @@ impl Node for RefNode {
                         }
                     }
                 }
+            } else {
+                child_node.normalize();
             }
         }
     }
-- 
2.43.0


From 49d0ec4fb60429e8e9794b90ecb3a0991ca382a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:40 +0000
Subject: [PATCH 16/30] fix: an attribute is the parent of its value's text
 node until the value is unset

---
 src/level2/trait_impls.rs | 26 +++++++++++++++++++-------
 1 file changed, 19 insertions(+), 7 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index ca1bffc..0c5a6eb 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -110,7 +110,9 @@ impl Attribute for RefNode {
     }
     fn unset_value(&mut self) -> Result<()> {
         let mut mut_self = self.borrow_mut();
-        mut_self.i_child_nodes.clear();
+        for child_node in mut_self.i_child_nodes.drain(..) {
+            child_node.borrow_mut().i_parent_node = None;
+        }
         Ok(())
     }
     fn owner_element(&self) -> Option<Self::NodeRef> {
@@ -259,8 +261,7 @@ impl Document for RefNode {
 
     fn create_attribute_with(&self, name: &str, value: &str) -> Result<RefNode> {
         let name = Name::from_str(name)?;
-        let node_impl = NodeImpl::new_attribute(self.clone().downgrade(), name, Some(value));
-        Ok(RefNode::new(node_impl))
+        Ok(new_attribute_with(self.clone().downgrade(), name, value))
     }
 
     fn create_attribute_ns(&self, namespace_uri: &str, qualified_name: &str) -> Result<RefNode> {
@@ -446,9 +447,9 @@ impl Element for RefNode {
         let attr_node = {
             let ref_self = &self.borrow_mut();
             let document = ref_self.i_owner_document.as_ref().unwrap();
-            NodeImpl::new_attribute(document.clone(), attr_name, Some(value))
+            new_attribute_with(document.clone(), attr_name, value)
         };
-        self.set_attribute_node(RefNode::new(attr_node)).map(|_| ())
+        self.set_attribute_node(attr_node).map(|_| ())
     }
 
     fn remove_attribute(&mut self, name: &str) -> Result<()> {
@@ -635,9 +636,9 @@ impl Element for RefNode {
         let attr_node = {
             let ref_self = &self.borrow_mut();
             let document = ref_self.i_owner_document.as_ref().unwrap();
-            NodeImpl::new_attribute(document.clone(), attr_name, Some(value))
+            new_attribute_with(document.clone(), attr_name, value)
         };
-        self.set_attribute_node(RefNode::new(attr_node)).map(|_| ())
+        self.set_attribute_node(attr_node).map(|_| ())
     }
 
     fn remove_attribute_ns(&mut self, namespace_uri: &str, local_name: &str) -> Result<()> {
@@ -1306,6 +1307,17 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
     Ok(())
 }
 
+//
+// Create a new attribute node, which is the parent of the text node that is its value.
+//
+fn new_attribute_with(owner_document: WeakRefNode, name: Name, value: &str) -> RefNode {
+    let attribute = RefNode::new(NodeImpl::new_attribute(owner_document, name, Some(value)));
+    for child_node in &attribute.borrow().i_child_nodes {
+        child_node.borrow_mut().i_parent_node = Some(attribute.clone().downgrade());
+    }
+    attribute
+}
+
 //
 // Do these names denote the same attribute of an element; either they have the same qualified
 // name, or the same namespace URI and local name.
-- 
2.43.0


From e34bbf91555bb6fc0b55a5873670e06ac469577c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:41 +0000
Subject: [PATCH 17/30] fix: has_feature ignores case and accepts an
 unspecified version, as documented

---
 src/level2/trait_impls.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 0c5a6eb..bd5f056 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -421,8 +421,9 @@ impl DOMImplementation for Implementation {
     }
 
     fn has_feature(&self, feature: &str, version: &str) -> bool {
-        (feature == XML_FEATURE_CORE || feature == XML_FEATURE_XML)
-            && (version == XML_FEATURE_V1 || version == XML_FEATURE_V2)
+        (feature.eq_ignore_ascii_case(XML_FEATURE_CORE)
+            || feature.eq_ignore_ascii_case(XML_FEATURE_XML))
+            && (version.is_empty() || version == XML_FEATURE_V1 || version == XML_FEATURE_V2)
     }
 }
 
-- 
2.43.0


From 724dfe618cc3eaf00d97e15069ad10e109d5db85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:43 +0000
Subject: [PATCH 18/30] fix: namespace resolution no longer panics when the
 parent has been dropped

---
 src/level2/ext/namespaced.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/level2/ext/namespaced.rs b/src/level2/ext/namespaced.rs
index 48b1fef..41ac118 100644
--- a/src/level2/ext/namespaced.rs
+++ b/src/level2/ext/namespaced.rs
@@ -146,7 +146,7 @@ impl Namespaced for RefNode {
                     None => None,
                     Some(parent) => {
                         let parent = parent.clone();
-                        let parent_node = parent.upgrade().expect(MSG_WEAK_REF);
+                        let parent_node = parent.upgrade()?;
                         parent_node.resolve_namespace(prefix)
                     }
                 }
@@ -194,8 +194,13 @@ impl Namespaced for RefNode {
                     None => NamespacePrefix::None,
                     Some(parent) => {
                         let parent = parent.clone();
-                        let parent_node = parent.upgrade().expect(MSG_WEAK_REF);
-                        parent_node.resolve_prefix(namespace_uri)
+                        match parent.upgrade() {
+                            None => {
+                                warn!("{}", MSG_WEAK_REF);
+                                NamespacePrefix::None
+                            }
+                            Some(parent_node) => parent_node.resolve_prefix(namespace_uri),
+                        }
                     }
                 }
             }
-- 
2.43.0


From 41c5ee5ce6693697859baaad9ac1a7cfde0848f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:46:44 +0000
Subject: [PATCH 19/30] fix: setting node_value has no effect on nodes without
 a value, as documented

---
 src/level2/trait_impls.rs | 18 ++++++++++++++++--
 1 file changed, 16 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index bd5f056..853a69c 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -803,13 +803,17 @@ impl Node for RefNode {
 
     fn set_node_value(&mut self, value: &str) -> Result<()> {
         let mut mut_self = self.borrow_mut();
-        mut_self.i_value = Some(value.to_string());
+        if has_node_value(&mut_self.i_node_type) {
+            mut_self.i_value = Some(value.to_string());
+        }
         Ok(())
     }
 
     fn unset_node_value(&mut self) -> Result<()> {
         let mut mut_self = self.borrow_mut();
-        mut_self.i_value = None;
+        if has_node_value(&mut_self.i_node_type) {
+            mut_self.i_value = None;
+        }
         Ok(())
     }
 
@@ -1308,6 +1312,16 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
     Ok(())
 }
 
+//
+// Setting the value of a node has no effect where that value is defined to be `None`.
+//
+fn has_node_value(node_type: &NodeType) -> bool {
+    matches!(
+        node_type,
+        NodeType::CData | NodeType::Comment | NodeType::ProcessingInstruction | NodeType::Text
+    )
+}
+
 //
 // Create a new attribute node, which is the parent of the text node that is its value.
 //
-- 
2.43.0


From d75b0ec9ddc0420909d934ea12aa22135535f9ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:07 +0000
Subject: [PATCH 20/30] fix: Element tag name searches return descendants only,
 as documented

---
 src/level2/trait_impls.rs | 56 ++++++++++++++++++++++++++-------------
 1 file changed, 37 insertions(+), 19 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 853a69c..5312015 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -347,7 +347,11 @@ impl Document for RefNode {
         // Delegate this call to the document element
         //
         if let Some(root_element) = self.document_element() {
-            Element::get_elements_by_tag_name(&root_element, tag_name)
+            let mut results = Element::get_elements_by_tag_name(&root_element, tag_name);
+            if tag_name_match(&root_element.node_name().to_string(), tag_name) {
+                results.insert(0, root_element);
+            }
+            results
         } else {
             Vec::default()
         }
@@ -358,7 +362,18 @@ impl Document for RefNode {
         // Delegate this call to the document element
         //
         if let Some(root_element) = self.document_element() {
-            Element::get_elements_by_tag_name_ns(&root_element, namespace_uri, local_name)
+            let mut results =
+                Element::get_elements_by_tag_name_ns(&root_element, namespace_uri, local_name);
+            let name = root_element.node_name();
+            if namespaced_name_match(
+                name.namespace_uri().as_deref(),
+                name.local_name(),
+                namespace_uri,
+                local_name,
+            ) {
+                results.insert(0, root_element);
+            }
+            results
         } else {
             Vec::default()
         }
@@ -599,12 +614,14 @@ impl Element for RefNode {
         if is_element(self) {
             let tag_name = tag_name.to_string();
             let ref_self = self.borrow();
-            if tag_name_match(&ref_self.i_name.to_string(), &tag_name) {
-                results.push(self.clone());
-            }
             for child_node in &ref_self.i_child_nodes {
                 match as_element(child_node) {
-                    Ok(ref_child) => results.extend(ref_child.get_elements_by_tag_name(&tag_name)),
+                    Ok(ref_child) => {
+                        if tag_name_match(&ref_child.tag_name(), &tag_name) {
+                            results.push(child_node.clone());
+                        }
+                        results.extend(ref_child.get_elements_by_tag_name(&tag_name))
+                    }
                     Err(_) => {
                         warn!("{}", MSG_INVALID_NODE_TYPE);
                     }
@@ -690,21 +707,22 @@ impl Element for RefNode {
             let namespace_uri = namespace_uri.to_string();
             let local_name = local_name.to_string();
             let ref_self = self.borrow();
-            if namespaced_name_match(
-                match ref_self.i_name.namespace_uri() {
-                    None => None,
-                    Some(s) => Some(s.as_str()),
-                },
-                ref_self.i_name.local_name(),
-                &namespace_uri,
-                &local_name,
-            ) {
-                results.push(self.clone());
-            }
             for child_node in &ref_self.i_child_nodes {
                 match as_element(child_node) {
-                    Ok(ref_child) => results
-                        .extend(ref_child.get_elements_by_tag_name_ns(&namespace_uri, &local_name)),
+                    Ok(ref_child) => {
+                        let name = ref_child.node_name();
+                        if namespaced_name_match(
+                            name.namespace_uri().as_deref(),
+                            name.local_name(),
+                            &namespace_uri,
+                            &local_name,
+                        ) {
+                            results.push(child_node.clone());
+                        }
+                        results.extend(
+                            ref_child.get_elements_by_tag_name_ns(&namespace_uri, &local_name),
+                        )
+                    }
                     Err(_) => {
                         warn!("{}", MSG_INVALID_NODE_TYPE);
                     }
-- 
2.43.0


From 0548b00f3f357292071aeb0cd1e3f3e97cc423b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:08 +0000
Subject: [PATCH 21/30] fix: create_document owns its document type, and
 rejects one already in use

---
 src/level2/trait_impls.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 5312015..29f4a8e 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1520,7 +1520,17 @@ pub(crate) fn create_document_with_options(
     doc_type: Option<RefNode>,
     options: ProcessingOptions,
 ) -> Result<RefNode> {
-    let node_impl = NodeImpl::new_document(doc_type, options);
+    if let Some(doc_type) = &doc_type {
+        if !is_document_type(doc_type) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Error::HierarchyRequest.into();
+        }
+        if doc_type.borrow().i_owner_document.is_some() {
+            warn!("document type is in use by another document");
+            return Error::WrongDocument.into();
+        }
+    }
+    let node_impl = NodeImpl::new_document(doc_type.clone(), options);
     let mut document_node = RefNode::new(node_impl);
 
     //
@@ -1546,5 +1556,9 @@ pub(crate) fn create_document_with_options(
         let _safe_to_ignore = document.append_child(element_node)?;
     }
 
+    if let Some(doc_type) = doc_type {
+        doc_type.borrow_mut().i_owner_document = Some(document_node.clone().downgrade());
+    }
+
     Ok(document_node)
 }
-- 
2.43.0


From 1f02f19e18304d0152aee1566831f19502e45d08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:40:55 +0000
Subject: [PATCH 22/30] fix: Text::split leaves the data of a comment alone
 when it fails

---
 src/level2/trait_impls.rs | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 29f4a8e..81051de 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1213,6 +1213,10 @@ impl Text for RefNode {
     fn split(&mut self, offset: usize) -> Result<RefNode> {
         let new_data = {
             let text = as_character_data_mut(self)?;
+            if text.node_type() == NodeType::Comment {
+                warn!("{}", MSG_INVALID_NODE_TYPE);
+                return Err(Error::Syntax);
+            }
             // The unescaped length, offsets are applied to the unescaped data.
             let length = text.node_value().map_or(0, |data| data.len());
             if offset >= length {
-- 
2.43.0


From 8d02018e4c37a7af4b518cb80193fdd06a5600a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:38:19 +0000
Subject: [PATCH 23/30] fix: reject an attribute or child that would make an
 element contain itself through an attribute value

---
 src/level2/trait_impls.rs | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 81051de..b65e959 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -514,6 +514,11 @@ impl Element for RefNode {
                 _ => (),
             }
 
+            if is_self_or_ancestor(&new_attribute, self) {
+                warn!("set_attribute_node: the value of the attribute contains the element");
+                return Err(Error::HierarchyRequest);
+            }
+
             let name: Name = new_attribute.node_name();
 
             //
@@ -1428,7 +1433,8 @@ fn detach_attribute(element: &mut RefNode, attribute: &RefNode) {
 }
 
 //
-// Is `node` the same node as `descendant`, or one of its ancestors.
+// Is `node` the same node as `descendant`, or does it contain it, in its children or (the value of)
+// its attributes.
 //
 fn is_self_or_ancestor(node: &RefNode, descendant: &RefNode) -> bool {
     let mut current = Some(descendant.clone());
@@ -1436,7 +1442,11 @@ fn is_self_or_ancestor(node: &RefNode, descendant: &RefNode) -> bool {
         if &candidate == node {
             return true;
         }
-        current = candidate.parent_node();
+        current = if is_attribute(&candidate) {
+            candidate.owner_element()
+        } else {
+            candidate.parent_node()
+        };
     }
     false
 }
-- 
2.43.0


From 5a8eab61525dbf22faf0f9ee1107cb4e0b6828c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:55:46 +0000
Subject: [PATCH 24/30] fix: an ID whose element was dropped can be used again

---
 src/level2/trait_impls.rs | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index b65e959..4dba124 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -531,11 +531,13 @@ impl Element for RefNode {
             };
             if let (Some(document), Some(id_value)) = (self.owner_document(), &id_value) {
                 if let Extension::Document { i_id_map, .. } = &document.borrow().i_extension {
-                    if let Some(weak_ref) = i_id_map.get(id_value) {
-                        if weak_ref.clone().upgrade().as_ref() != Some(self) {
+                    // An entry of an element that has been dropped is not in use any more.
+                    match i_id_map.get(id_value).map(|id| id.clone().upgrade()) {
+                        Some(Some(other)) if &other != self => {
                             warn!("{}", MSG_DUPLICATE_ID);
                             return Err(Error::Syntax);
                         }
+                        _ => (),
                     }
                 }
             }
-- 
2.43.0


From 97d82555156c75a7b80716795b12e2404e87f3d9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:19 +0000
Subject: [PATCH 25/30] fix: Attribute::set_value and unset_value leave nodes
 alone that are no attributes, and a dropped document does not make set_value
 panic

---
 src/level2/trait_impls.rs | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 4dba124..372a3ca 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -103,12 +103,17 @@ impl Attribute for RefNode {
     }
     fn set_value(&mut self, value: &str) -> Result<()> {
         self.unset_value()?;
-        let document_node = self.owner_document().unwrap();
-        let document = as_document(&document_node).unwrap();
-        let _safe_to_ignore = self.append_child(document.create_text_node(value))?;
+        let owner_document = self.borrow().i_owner_document.clone();
+        let owner_document = owner_document.ok_or(Error::InvalidState)?;
+        let text_node = RefNode::new(NodeImpl::new_text(owner_document, value));
+        let _safe_to_ignore = self.append_child(text_node)?;
         Ok(())
     }
     fn unset_value(&mut self) -> Result<()> {
+        if !is_attribute(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         let mut mut_self = self.borrow_mut();
         for child_node in mut_self.i_child_nodes.drain(..) {
             child_node.borrow_mut().i_parent_node = None;
-- 
2.43.0


From 7444fc7e2d5b383e1ac5372a2f131a290c4c0da5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:04:20 +0000
Subject: [PATCH 26/30] fix: setting an attribute of a node that is not an
 element fails instead of panicking

---
 src/level2/trait_impls.rs | 8 ++++++++
 1 file changed, 8 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 372a3ca..e779b91 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -465,6 +465,10 @@ impl Element for RefNode {
 
     fn set_attribute(&mut self, name: &str, value: &str) -> Result<()> {
         let attr_name = Name::from_str(name)?;
+        if !is_element(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         let attr_node = {
             let ref_self = &self.borrow_mut();
             let document = ref_self.i_owner_document.as_ref().unwrap();
@@ -663,6 +667,10 @@ impl Element for RefNode {
         value: &str,
     ) -> Result<()> {
         let attr_name = Name::new_ns(namespace_uri, qualified_name)?;
+        if !is_element(self) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
         let attr_node = {
             let ref_self = &self.borrow_mut();
             let document = ref_self.i_owner_document.as_ref().unwrap();
-- 
2.43.0


From b0304f4e6e89eeadf5fd4a74b43e741fb998c973 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:02 +0000
Subject: [PATCH 27/30] fix: reading an attribute value no longer panics on
 references to unknown entities or characters

---
 src/level2/entity_resolver.rs | 10 +++++++++-
 src/shared/text.rs            | 23 ++++++++++++-----------
 2 files changed, 21 insertions(+), 12 deletions(-)

diff --git a/src/level2/entity_resolver.rs b/src/level2/entity_resolver.rs
index 3f633d4..d5a9c0f 100644
--- a/src/level2/entity_resolver.rs
+++ b/src/level2/entity_resolver.rs
@@ -4,6 +4,7 @@ Implementation of `EntityResolver` that navigates the `Document` structure.
 
 use crate::level2::convert::{as_document, as_document_type};
 use crate::level2::{Name, Node, NodeType, RefNode};
+use crate::shared::syntax::{XML_ENTITYREF_END, XML_ENTITYREF_START};
 use crate::shared::text::EntityResolver;
 use std::str::FromStr;
 
@@ -31,7 +32,14 @@ impl EntityResolver for RefNode {
             None => None,
             Some(doc_type) => {
                 let doc_type = as_document_type(&doc_type).unwrap();
-                let name = Name::from_str(entity).unwrap();
+                //
+                // The text of a reference includes its delimiters, the name of the entity does not.
+                //
+                let name = entity
+                    .strip_prefix(XML_ENTITYREF_START)
+                    .and_then(|name| name.strip_suffix(XML_ENTITYREF_END))
+                    .unwrap_or(entity);
+                let name = Name::from_str(name).ok()?;
                 match doc_type.entities().get(&name) {
                     None => None,
                     Some(entity) => entity.node_value(),
diff --git a/src/shared/text.rs b/src/shared/text.rs
index fea2fe2..49bf260 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -59,7 +59,8 @@ pub(crate) trait EntityResolver {
 /// processor as if declared CDATA.
 ///
 /// It is an error if an attribute value contains a reference to an entity for which no declaration
-/// has been read.
+/// has been read. This implementation keeps such a reference, and any reference to a character that
+/// does not exist, as text.
 ///
 pub(crate) fn normalize_attribute_value(
     value: impl AsRef<str>,
@@ -81,10 +82,10 @@ pub(crate) fn normalize_attribute_value(
         for capture in find.captures_iter(&step_1) {
             let (start, end, replacement) = if let Some(a_match) = capture.name("entity_ref") {
                 //
-                // TODO: this does not yet deal with entity references.
+                // A reference to an unknown entity is kept as text.
                 //
                 let replacement = match resolver.resolve(a_match.as_str()) {
-                    None => panic!("unknown entity reference {}", a_match.as_str()),
+                    None => a_match.as_str().to_string(),
                     Some(replacement) => {
                         normalize_attribute_value(&replacement, resolver, is_cdata)
                     }
@@ -220,15 +221,15 @@ fn char_from_entity(entity: impl AsRef<str>) -> String {
     let entity = entity.as_ref();
     assert!(entity.starts_with("&#"));
     assert!(entity.ends_with(';'));
-    let code_point = if &entity[2..3] == "x" {
-        let code_point = &entity[3..entity.len() - 1];
-        u32::from_str_radix(code_point, 16).unwrap()
-    } else {
-        let code_point = &entity[2..entity.len() - 1];
-        code_point.parse::<u32>().unwrap()
+    let code_point = &entity[2..entity.len() - 1];
+    let code_point = match code_point.strip_prefix('x') {
+        Some(code_point) => u32::from_str_radix(code_point, 16),
+        None => code_point.parse::<u32>(),
     };
-    let character = char::try_from(code_point).unwrap();
-    character.to_string()
+    match code_point.ok().and_then(char::from_u32) {
+        None => entity.to_string(),
+        Some(character) => character.to_string(),
+    }
 }
 
 ///
-- 
2.43.0


From 83855565bc7a5ba163f2d3a0615f01372621ca37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:04 +0000
Subject: [PATCH 28/30] fix: replacement text within an attribute value is not
 trimmed

---
 src/shared/text.rs | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/src/shared/text.rs b/src/shared/text.rs
index 49bf260..6699e6a 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -86,9 +86,8 @@ pub(crate) fn normalize_attribute_value(
                 //
                 let replacement = match resolver.resolve(a_match.as_str()) {
                     None => a_match.as_str().to_string(),
-                    Some(replacement) => {
-                        normalize_attribute_value(&replacement, resolver, is_cdata)
-                    }
+                    // Only the complete value is trimmed, not the replacement text within it.
+                    Some(replacement) => normalize_attribute_value(&replacement, resolver, true),
                 };
                 (a_match.start(), a_match.end(), replacement)
             } else if let Some(a_match) = capture.name("char") {
-- 
2.43.0


From 7ee85446ef30af5b2549dc17f2969e38f09dc232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:05 +0000
Subject: [PATCH 29/30] fix: Document::implementation no longer panics on other
 nodes

---
 src/level2/trait_impls.rs | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index e779b91..6a39777 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -254,7 +254,8 @@ impl Document for RefNode {
         {
             *i_implementation
         } else {
-            panic!("{}", MSG_INVALID_EXTENSION);
+            warn!("{}", MSG_INVALID_EXTENSION);
+            get_implementation()
         }
     }
 
-- 
2.43.0


From f0fc13756065875db35db5a8d1d3866d86d52d4d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:10:07 +0000
Subject: [PATCH 30/30] fix: Name::set_prefix rejects prefixes that are not
 names

---
 src/shared/name.rs | 14 +++++++++++++-
 1 file changed, 13 insertions(+), 1 deletion(-)

diff --git a/src/shared/name.rs b/src/shared/name.rs
index 3d69425..4abe6ab 100644
--- a/src/shared/name.rs
+++ b/src/shared/name.rs
@@ -374,8 +374,20 @@ impl Name {
     ///
     /// Set this name's prefix.
     ///
+    /// Note, errors include a malformed prefix, and a reserved prefix that does not match the
+    /// namespace URI of this name; the name is then unchanged.
+    ///
     pub fn set_prefix(&mut self, new_prefix: Option<&str>) -> Result<()> {
-        self.prefix = new_prefix.map(String::from);
+        let prefix = match new_prefix {
+            None => None,
+            Some(prefix) if prefix.contains(XML_NS_SEPARATOR) => return Err(Error::Syntax),
+            Some(prefix) => Some(Self::check_part(prefix)?),
+        };
+        if let Some(namespace_uri) = &self.namespace_uri {
+            let _safe_to_ignore =
+                Self::check_namespace_uri(namespace_uri, &prefix, &self.local_name)?;
+        }
+        self.prefix = prefix;
         Ok(())
     }
 }
-- 
2.43.0

