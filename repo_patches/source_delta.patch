From 8cf5fec03eee29e26d99b804f932f92736edbacd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:21 +0000
Subject: [PATCH 01/43] fix: reject inserting a node into itself or one of its
 descendants

---
 src/level2/trait_impls.rs | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 23d0927..94d9ead 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -932,6 +932,7 @@ impl Node for RefNode {
             warn!("The child you tried to add is not valid for this parent.");
             return Err(Error::HierarchyRequest);
         }
+        check_not_ancestor(self, &new_child)?;
 
         //
         // Special case for Document only.
@@ -1243,6 +1244,27 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
     }
     Ok(())
 }
+
+//
+// CHECK: Raise `Error::HierarchyRequest` if `new_child` is this node, or one of its ancestors. The
+// owner element of an attribute is considered here to be its parent.
+//
+fn check_not_ancestor(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
+    let mut current = Some(self_node.clone());
+    while let Some(node) = current {
+        if &node == new_child {
+            warn!("Error::HierarchyRequest: a node may not be added to itself or a descendant.");
+            return Err(Error::HierarchyRequest);
+        }
+        current = if is_attribute(&node) {
+            node.owner_element()
+        } else {
+            node.parent_node()
+        };
+    }
+    Ok(())
+}
+
 //
 // From [https://www.w3.org/TR/DOM-Level-2-Core/core.html#ID-1590626202]
 //
-- 
2.43.0


From 03df7f8655805e91c91c388d883e2ea41a8dc867 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:41 +0000
Subject: [PATCH 02/43] fix: insert before the right sibling when moving a node
 within its parent

---
 src/level2/trait_impls.rs | 14 ++++++++++++++
 1 file changed, 14 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 94d9ead..d51510d 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -969,6 +969,20 @@ impl Node for RefNode {
 
         check_same_document(self, &new_child)?;
 
+        //
+        // If the new child is already an earlier sibling of `ref_child` then removing it, below,
+        // will also move the position of `ref_child`.
+        //
+        let insert_position = insert_position.map(|position| {
+            let ref_self = self.borrow();
+            let mut earlier_siblings = ref_self.i_child_nodes.iter().take(position);
+            if earlier_siblings.any(|child| child == &new_child) {
+                position - 1
+            } else {
+                position
+            }
+        });
+
         //
         // Remove from it's current parent
         //
-- 
2.43.0


From 2c1676fc9213d066646d0ff69598914e2575d70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:37:43 +0000
Subject: [PATCH 03/43] fix: replace_child keeps the old child when the new
 child is rejected

---
 src/level2/trait_impls.rs | 18 +++++++++++++++++-
 1 file changed, 17 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index d51510d..e259f46 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -942,7 +942,7 @@ impl Node for RefNode {
             && self
                 .child_nodes()
                 .iter()
-                .any(|n| n.node_type() == NodeType::Element)
+                .any(|n| n.node_type() == NodeType::Element && n != &new_child)
         {
             warn!("cannot add more than one element to a document");
             return Error::HierarchyRequest.into();
@@ -1035,6 +1035,22 @@ impl Node for RefNode {
             ref_self.i_child_nodes.contains(&old_child.clone())
         };
         if exists {
+            //
+            // Make all the checks `insert_before` makes *before* removing the old child.
+            //
+            check_not_ancestor(self, &new_child)?;
+            if is_document(self)
+                && is_element(&new_child)
+                && self
+                    .child_nodes()
+                    .iter()
+                    .any(|n| is_element(n) && n != &new_child && n != &old_child)
+            {
+                warn!("cannot add more than one element to a document");
+                return Error::HierarchyRequest.into();
+            }
+            check_same_document(self, &new_child)?;
+
             let next_node = old_child.next_sibling();
             let removed = self.remove_child(old_child)?;
             let _safe_to_ignore = self.insert_before(new_child, next_node)?;
-- 
2.43.0


From d52f1abdebea3ab823448696055ce603b90753a5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:15 +0000
Subject: [PATCH 04/43] fix: keep attribute owners, ids and namespace mappings
 in step with the attributes

set_attribute_node now checks for an attribute in use and for a duplicate id
before changing anything, displaces every attribute the new one replaces and
no longer fails on an id or namespace attribute that has no value;
remove_attribute_node returns NotFound for an attribute the element does not
hold and clears the owner, namespace mapping and id. An xmlns:p attribute maps
the prefix p, and not the prefix xmlns.
---
 src/level2/trait_impls.rs | 156 +++++++++++++++++++++++++++++---------
 1 file changed, 121 insertions(+), 35 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index e259f46..b2320c5 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1,6 +1,7 @@
 use crate::level2::convert::*;
 use crate::level2::dom_impl::{get_implementation, Implementation};
 use crate::level2::ext::convert::as_element_namespaced_mut;
+use crate::level2::ext::namespaced::MutNamespaced;
 use crate::level2::ext::options::ProcessingOptions;
 use crate::level2::node_impl::*;
 use crate::level2::traits::*;
@@ -486,6 +487,24 @@ impl Element for RefNode {
     fn set_attribute_node(&mut self, new_attribute: RefNode) -> Result<RefNode> {
         if is_element(self) && is_attribute(&new_attribute) {
             check_same_document(self, &new_attribute)?;
+            check_not_ancestor(self, &new_attribute)?;
+            if matches!(new_attribute.owner_element(), Some(owner) if &owner != self) {
+                warn!("Error::InUseAttribute: attribute belongs to another element.");
+                return Err(Error::InUseAttribute);
+            }
+            let id_value = id_value(&new_attribute);
+            if let Some(id_value) = &id_value {
+                check_unique_id(self, id_value)?;
+            }
+
+            //
+            // Remove any attribute that this one replaces.
+            //
+            for (name, replaced) in self.attributes() {
+                if is_same_attribute(&name, &new_attribute.node_name()) {
+                    let _safe_to_ignore = self.remove_attribute_node(replaced)?;
+                }
+            }
 
             //
             // Set the attribute's owner. This is *not* the same as parent which remains `None`.
@@ -508,44 +527,32 @@ impl Element for RefNode {
                 // Add to the element's namespace mapping hash
                 //
                 let attribute = as_attribute(&new_attribute).unwrap();
-                let namespace_uri = attribute.value().unwrap();
-
-                let as_namespaced = as_element_namespaced_mut(self).unwrap();
-                let _ignore = match &name.prefix() {
-                    None => as_namespaced.insert_mapping(None, &namespace_uri),
-                    Some(prefix) => as_namespaced.insert_mapping(Some(prefix), &namespace_uri),
-                }?;
+                if let Some(namespace_uri) = attribute.value() {
+                    let as_namespaced = as_element_namespaced_mut(self).unwrap();
+                    let _ignore = match &name.prefix() {
+                        None => as_namespaced.insert_mapping(None, &namespace_uri),
+                        Some(_) => {
+                            as_namespaced.insert_mapping(Some(name.local_name()), &namespace_uri)
+                        }
+                    }?;
+                }
             }
 
             let mut mut_self = self.borrow_mut();
             if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
                 let _safe_to_ignore =
                     i_attributes.insert(new_attribute.node_name(), new_attribute.clone());
-                {
+                if let Some(id_value) = id_value {
                     //
                     // Add to the owning document's id_map hash
                     //
-                    let attribute = as_attribute(&new_attribute).unwrap();
-                    let document = attribute.owner_document().unwrap();
-                    let mut mut_document = document.borrow_mut();
-                    let lax =
-                        if let Extension::Document { i_options, .. } = &mut_document.i_extension {
-                            i_options.has_assume_ids()
-                        } else {
-                            warn!("{}", MSG_INVALID_EXTENSION);
-                            false
-                        };
-                    if name.is_id_attribute(lax) {
+                    if let Some(document) = new_attribute.owner_document() {
+                        let mut mut_document = document.borrow_mut();
                         //
                         // Update the document ID mapping
                         //
                         if let Extension::Document { i_id_map, .. } = &mut mut_document.i_extension
                         {
-                            let id_value = attribute.value().unwrap();
-                            if i_id_map.contains_key(&id_value) {
-                                warn!("{}", MSG_DUPLICATE_ID);
-                                return Err(Error::Syntax);
-                            }
                             let _safe_to_ignore =
                                 i_id_map.insert(id_value, self.clone().downgrade());
                         } else {
@@ -566,19 +573,38 @@ impl Element for RefNode {
 
     fn remove_attribute_node(&mut self, old_attribute: RefNode) -> Result<RefNode> {
         if is_element(self) {
-            let mut mut_self = self.borrow_mut();
-            if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
-                let _safe_to_ignore = i_attributes.remove(&old_attribute.node_name());
-                let mut_old = old_attribute.clone();
-                let mut mut_old = mut_old.borrow_mut();
+            let name: Name = old_attribute.node_name();
+            if self.attributes().get(&name) != Some(&old_attribute) {
+                warn!("remove_attribute_node: not an attribute of this element");
+                return Err(Error::NotFound);
+            }
+            {
+                let mut mut_self = self.borrow_mut();
+                if let Extension::Element { i_attributes, .. } = &mut mut_self.i_extension {
+                    let _safe_to_ignore = i_attributes.remove(&name);
+                } else {
+                    warn!("{}", MSG_INVALID_EXTENSION);
+                    return Err(Error::Syntax);
+                }
+            }
+            {
+                let mut mut_old = old_attribute.borrow_mut();
                 mut_old.i_parent_node = None;
-                // TODO: remove from Element::namespaces
-                // TODO: remove from Document::id_map
-                Ok(old_attribute)
-            } else {
-                warn!("{}", MSG_INVALID_EXTENSION);
-                Err(Error::Syntax)
+                if let Extension::Attribute {
+                    i_owner_element, ..
+                } = &mut mut_old.i_extension
+                {
+                    *i_owner_element = None;
+                }
+            }
+            if name.is_namespace_attribute() {
+                let _safe_to_ignore = match &name.prefix() {
+                    None => self.remove_mapping(None),
+                    Some(_) => self.remove_mapping(Some(name.local_name())),
+                }?;
             }
+            remove_id(self, &old_attribute);
+            Ok(old_attribute)
         } else {
             warn!("{}", MSG_INVALID_NODE_TYPE);
             Err(Error::InvalidState)
@@ -1236,6 +1262,66 @@ fn namespaced_name_match(
     }
 }
 
+//
+// Two attributes with these names may not both be present on the same element.
+//
+fn is_same_attribute(left: &Name, right: &Name) -> bool {
+    left.to_string() == right.to_string()
+        || (left.namespace_uri().is_some()
+            && left.namespace_uri() == right.namespace_uri()
+            && left.local_name() == right.local_name())
+}
+
+//
+// The value of this attribute if, according to its name and the document options, it is an ID.
+//
+fn id_value(attribute: &RefNode) -> Option<String> {
+    let document = attribute.owner_document()?;
+    let lax = if let Extension::Document { i_options, .. } = &document.borrow().i_extension {
+        i_options.has_assume_ids()
+    } else {
+        warn!("{}", MSG_INVALID_EXTENSION);
+        false
+    };
+    if attribute.node_name().is_id_attribute(lax) {
+        attribute.value()
+    } else {
+        None
+    }
+}
+
+//
+// CHECK: Raise `Error::Syntax` if another element already has this ID.
+//
+fn check_unique_id(element: &RefNode, id_value: &str) -> Result<()> {
+    match element.owner_document() {
+        Some(document) if document.get_element_by_id(id_value).map_or(false, |e| &e != element) => {
+            warn!("{}", MSG_DUPLICATE_ID);
+            Err(Error::Syntax)
+        }
+        _ => Ok(()),
+    }
+}
+
+//
+// Remove the ID given to `element` by `attribute`, which has been removed from it, from the owning
+// document; unless another attribute gives the element the same ID.
+//
+fn remove_id(element: &RefNode, attribute: &RefNode) {
+    if let (Some(id), Some(document)) = (id_value(attribute), element.owner_document()) {
+        if document.get_element_by_id(&id).as_ref() == Some(element)
+            && !element
+                .attributes()
+                .values()
+                .any(|other| id_value(other).as_ref() == Some(&id))
+        {
+            if let Extension::Document { i_id_map, .. } = &mut document.borrow_mut().i_extension {
+                let _safe_to_ignore = i_id_map.remove(&id);
+            }
+        }
+    }
+}
+
 //
 // CHECK: Raise `Error::WrongDocument` if `newChild` was created from a different
 // document than the one that created this node.
-- 
2.43.0


From 4e540102efce7aacf117cd084b27b0728bc1f6a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:53 +0000
Subject: [PATCH 05/43] fix: an attribute is the parent of the text that holds
 its value

---
 src/level2/trait_impls.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index b2320c5..78804d1 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -110,8 +110,9 @@ impl Attribute for RefNode {
         Ok(())
     }
     fn unset_value(&mut self) -> Result<()> {
-        let mut mut_self = self.borrow_mut();
-        mut_self.i_child_nodes.clear();
+        for child_node in self.child_nodes() {
+            let _safe_to_ignore = self.remove_child(child_node)?;
+        }
         Ok(())
     }
     fn owner_element(&self) -> Option<Self::NodeRef> {
@@ -258,8 +259,7 @@ impl Document for RefNode {
 
     fn create_attribute_with(&self, name: &str, value: &str) -> Result<RefNode> {
         let name = Name::from_str(name)?;
-        let node_impl = NodeImpl::new_attribute(self.clone().downgrade(), name, Some(value));
-        Ok(RefNode::new(node_impl))
+        Ok(new_attribute_with(self.clone().downgrade(), name, value))
     }
 
     fn create_attribute_ns(&self, namespace_uri: &str, qualified_name: &str) -> Result<RefNode> {
@@ -445,9 +445,9 @@ impl Element for RefNode {
         let attr_node = {
             let ref_self = &self.borrow_mut();
             let document = ref_self.i_owner_document.as_ref().unwrap();
-            NodeImpl::new_attribute(document.clone(), attr_name, Some(value))
+            new_attribute_with(document.clone(), attr_name, value)
         };
-        self.set_attribute_node(RefNode::new(attr_node)).map(|_| ())
+        self.set_attribute_node(attr_node).map(|_| ())
     }
 
     fn remove_attribute(&mut self, name: &str) -> Result<()> {
@@ -654,9 +654,9 @@ impl Element for RefNode {
         let attr_node = {
             let ref_self = &self.borrow_mut();
             let document = ref_self.i_owner_document.as_ref().unwrap();
-            NodeImpl::new_attribute(document.clone(), attr_name, Some(value))
+            new_attribute_with(document.clone(), attr_name, value)
         };
-        self.set_attribute_node(RefNode::new(attr_node)).map(|_| ())
+        self.set_attribute_node(attr_node).map(|_| ())
     }
 
     fn remove_attribute_ns(&mut self, namespace_uri: &str, local_name: &str) -> Result<()> {
@@ -1262,6 +1262,17 @@ fn namespaced_name_match(
     }
 }
 
+//
+// Create an attribute node, with a text child that has the attribute as its parent.
+//
+fn new_attribute_with(owner_document: WeakRefNode, name: Name, value: &str) -> RefNode {
+    let attribute = RefNode::new(NodeImpl::new_attribute(owner_document, name, Some(value)));
+    for child_node in attribute.child_nodes() {
+        child_node.borrow_mut().i_parent_node = Some(attribute.clone().downgrade());
+    }
+    attribute
+}
+
 //
 // Two attributes with these names may not both be present on the same element.
 //
-- 
2.43.0


From 16ec009f6087bca897ccf374100d1fc10605aeb3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:39:55 +0000
Subject: [PATCH 06/43] fix: setting the value of an id or namespace attribute
 updates its element

---
 src/level2/trait_impls.rs | 45 +++++++++++++++++++++++++++++++--------
 1 file changed, 36 insertions(+), 9 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 78804d1..7dd661a 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -103,17 +103,20 @@ impl Attribute for RefNode {
         }
     }
     fn set_value(&mut self, value: &str) -> Result<()> {
-        self.unset_value()?;
-        let document_node = self.owner_document().unwrap();
-        let document = as_document(&document_node).unwrap();
-        let _safe_to_ignore = self.append_child(document.create_text_node(value))?;
-        Ok(())
+        let new_self = {
+            let ref_self = self.borrow();
+            let document = ref_self.i_owner_document.as_ref().unwrap();
+            new_attribute_with(document.clone(), ref_self.i_name.clone(), value)
+        };
+        replace_attribute_children(self, new_self)
     }
     fn unset_value(&mut self) -> Result<()> {
-        for child_node in self.child_nodes() {
-            let _safe_to_ignore = self.remove_child(child_node)?;
-        }
-        Ok(())
+        let new_self = {
+            let ref_self = self.borrow();
+            let document = ref_self.i_owner_document.as_ref().unwrap();
+            NodeImpl::new_attribute(document.clone(), ref_self.i_name.clone(), None)
+        };
+        replace_attribute_children(self, RefNode::new(new_self))
     }
     fn owner_element(&self) -> Option<Self::NodeRef> {
         unwrap_extension_field!(
@@ -1273,6 +1276,30 @@ fn new_attribute_with(owner_document: WeakRefNode, name: Name, value: &str) -> R
     attribute
 }
 
+//
+// Replace the children of `attribute` with those of `new_attribute`. As this changes the value of
+// the attribute any ID or namespace mapping it provides to its element changes as well.
+//
+fn replace_attribute_children(attribute: &mut RefNode, new_attribute: RefNode) -> Result<()> {
+    let owner_element = attribute.owner_element();
+    if let (Some(element), Some(id_value)) = (&owner_element, id_value(&new_attribute)) {
+        check_unique_id(element, &id_value)?;
+    }
+    if let Some(mut element) = owner_element.clone() {
+        let _safe_to_ignore = element.remove_attribute_node(attribute.clone())?;
+    }
+    for child_node in attribute.child_nodes() {
+        let _safe_to_ignore = attribute.remove_child(child_node)?;
+    }
+    for child_node in new_attribute.child_nodes() {
+        let _safe_to_ignore = attribute.append_child(child_node)?;
+    }
+    if let Some(mut element) = owner_element {
+        let _safe_to_ignore = element.set_attribute_node(attribute.clone())?;
+    }
+    Ok(())
+}
+
 //
 // Two attributes with these names may not both be present on the same element.
 //
-- 
2.43.0


From 4891ac29f7fe7f59d55d8eb16171e62ffde308d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:40:15 +0000
Subject: [PATCH 07/43] fix: nodes whose parent or document has been dropped no
 longer cause a panic

---
 src/level2/ext/namespaced.rs | 18 ++++++++++++++----
 src/level2/trait_impls.rs    |  7 ++-----
 2 files changed, 16 insertions(+), 9 deletions(-)

diff --git a/src/level2/ext/namespaced.rs b/src/level2/ext/namespaced.rs
index 48b1fef..200564b 100644
--- a/src/level2/ext/namespaced.rs
+++ b/src/level2/ext/namespaced.rs
@@ -146,8 +146,13 @@ impl Namespaced for RefNode {
                     None => None,
                     Some(parent) => {
                         let parent = parent.clone();
-                        let parent_node = parent.upgrade().expect(MSG_WEAK_REF);
-                        parent_node.resolve_namespace(prefix)
+                        match parent.upgrade() {
+                            None => {
+                                warn!("{}", MSG_WEAK_REF);
+                                None
+                            }
+                            Some(parent_node) => parent_node.resolve_namespace(prefix),
+                        }
                     }
                 }
             }
@@ -194,8 +199,13 @@ impl Namespaced for RefNode {
                     None => NamespacePrefix::None,
                     Some(parent) => {
                         let parent = parent.clone();
-                        let parent_node = parent.upgrade().expect(MSG_WEAK_REF);
-                        parent_node.resolve_prefix(namespace_uri)
+                        match parent.upgrade() {
+                            None => {
+                                warn!("{}", MSG_WEAK_REF);
+                                NamespacePrefix::None
+                            }
+                            Some(parent_node) => parent_node.resolve_prefix(namespace_uri),
+                        }
                     }
                 }
             }
diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 7dd661a..81555b8 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1371,8 +1371,7 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
             if !match child_document {
                 None => true,
                 Some(child_document) => {
-                    let child_document = child_document.clone().upgrade().unwrap();
-                    self_node == &child_document
+                    Some(self_node) == child_document.clone().upgrade().as_ref()
                 }
             } {
                 warn!("Error::WrongDocument: child could not be added to the document node.");
@@ -1386,9 +1385,7 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
                 (Some(_), None) => true,
                 (None, Some(_)) => false,
                 (Some(self_document), Some(child_document)) => {
-                    let self_document = self_document.clone().upgrade().unwrap();
-                    let child_document = child_document.clone().upgrade().unwrap();
-                    self_document == child_document
+                    self_document.as_inner().ptr_eq(child_document.as_inner())
                 }
             } {
                 warn!("Error::WrongDocument: child could not be added to the current node.");
-- 
2.43.0


From 716b90af34400650f44c575dbccba86749f99bbc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:00 +0000
Subject: [PATCH 08/43] fix: the document element is the element child of a
 document, not its first child

---
 src/level2/trait_impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 81555b8..cd01e6c 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -239,7 +239,7 @@ impl Document for RefNode {
     }
 
     fn document_element(&self) -> Option<RefNode> {
-        self.child_nodes().first().cloned()
+        self.child_nodes().into_iter().find(is_element)
     }
 
     fn implementation(&self) -> &dyn DOMImplementation<NodeRef = RefNode> {
-- 
2.43.0


From aa0f9431c9648f1dd0af43de250242449604d022 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:01 +0000
Subject: [PATCH 09/43] fix: element search excludes the element searched, and
 includes entity reference content

---
 src/level2/trait_impls.rs | 93 +++++++++++++++++++++++----------------
 1 file changed, 54 insertions(+), 39 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index cd01e6c..64975e8 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -345,24 +345,40 @@ impl Document for RefNode {
 
     fn get_elements_by_tag_name(&self, tag_name: &str) -> Vec<RefNode> {
         //
-        // Delegate this call to the document element
+        // Delegate this call to the document element, having tested that element itself.
         //
+        let mut results = Vec::default();
         if let Some(root_element) = self.document_element() {
-            Element::get_elements_by_tag_name(&root_element, tag_name)
-        } else {
-            Vec::default()
+            if tag_name_match(&root_element.node_name().to_string(), tag_name) {
+                results.push(root_element.clone());
+            }
+            results.extend(Element::get_elements_by_tag_name(&root_element, tag_name));
         }
+        results
     }
 
     fn get_elements_by_tag_name_ns(&self, namespace_uri: &str, local_name: &str) -> Vec<RefNode> {
         //
-        // Delegate this call to the document element
+        // Delegate this call to the document element, having tested that element itself.
         //
+        let mut results = Vec::default();
         if let Some(root_element) = self.document_element() {
-            Element::get_elements_by_tag_name_ns(&root_element, namespace_uri, local_name)
-        } else {
-            Vec::default()
+            let name = root_element.node_name();
+            if namespaced_name_match(
+                name.namespace_uri().as_deref(),
+                name.local_name(),
+                namespace_uri,
+                local_name,
+            ) {
+                results.push(root_element.clone());
+            }
+            results.extend(Element::get_elements_by_tag_name_ns(
+                &root_element,
+                namespace_uri,
+                local_name,
+            ));
         }
+        results
     }
 }
 
@@ -618,18 +634,11 @@ impl Element for RefNode {
         let mut results = Vec::default();
         if is_element(self) {
             let tag_name = tag_name.to_string();
-            let ref_self = self.borrow();
-            if tag_name_match(&ref_self.i_name.to_string(), &tag_name) {
-                results.push(self.clone());
-            }
-            for child_node in &ref_self.i_child_nodes {
-                match as_element(child_node) {
-                    Ok(ref_child) => results.extend(ref_child.get_elements_by_tag_name(&tag_name)),
-                    Err(_) => {
-                        warn!("{}", MSG_INVALID_NODE_TYPE);
-                    }
+            descendant_elements(self, &mut |ref_child| {
+                if tag_name_match(&ref_child.borrow().i_name.to_string(), &tag_name) {
+                    results.push(ref_child.clone());
                 }
-            }
+            });
         }
         results
     }
@@ -709,27 +718,20 @@ impl Element for RefNode {
         if is_element(self) {
             let namespace_uri = namespace_uri.to_string();
             let local_name = local_name.to_string();
-            let ref_self = self.borrow();
-            if namespaced_name_match(
-                match ref_self.i_name.namespace_uri() {
-                    None => None,
-                    Some(s) => Some(s.as_str()),
-                },
-                ref_self.i_name.local_name(),
-                &namespace_uri,
-                &local_name,
-            ) {
-                results.push(self.clone());
-            }
-            for child_node in &ref_self.i_child_nodes {
-                match as_element(child_node) {
-                    Ok(ref_child) => results
-                        .extend(ref_child.get_elements_by_tag_name_ns(&namespace_uri, &local_name)),
-                    Err(_) => {
-                        warn!("{}", MSG_INVALID_NODE_TYPE);
-                    }
+            descendant_elements(self, &mut |ref_child| {
+                let name = &ref_child.borrow().i_name;
+                if namespaced_name_match(
+                    match name.namespace_uri() {
+                        None => None,
+                        Some(s) => Some(s.as_str()),
+                    },
+                    name.local_name(),
+                    &namespace_uri,
+                    &local_name,
+                ) {
+                    results.push(ref_child.clone());
                 }
-            }
+            });
         }
         results
     }
@@ -1237,6 +1239,19 @@ impl Display for RefNode {
 // Private Functions
 // ------------------------------------------------------------------------------------------------
 
+//
+// Call `visit` with each element below `node`, including any within entity references, in document
+// order.
+//
+fn descendant_elements(node: &RefNode, visit: &mut dyn FnMut(&RefNode)) {
+    for child_node in &node.borrow().i_child_nodes {
+        if is_element(child_node) {
+            visit(child_node);
+        }
+        descendant_elements(child_node, visit);
+    }
+}
+
 const WILD_CARD: &str = "*";
 
 fn tag_name_match(test: &str, against: &str) -> bool {
-- 
2.43.0


From 39edf99bd535ddbc46f6f2952f74ccb2c5fe624e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:41:40 +0000
Subject: [PATCH 10/43] fix: character data offsets and lengths are in 16-bit
 units of the actual data

Previously they were bytes, and failed within a multi-byte character; the
length counted the escaped form of the data; an offset equal to the length was
rejected; and large counts overflowed.
---
 src/level2/trait_impls.rs | 36 ++++++++++--------------------------
 src/level2/traits.rs      |  8 ++++----
 src/shared/text.rs        | 33 ++++++++++++++++++++++++++++++++-
 3 files changed, 46 insertions(+), 31 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 64975e8..277ad11 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -147,25 +147,17 @@ impl CDataSection for RefNode {}
 
 impl CharacterData for RefNode {
     fn substring_data(&self, offset: usize, count: usize) -> Result<String> {
-        if offset + count == offset {
+        if count == 0 {
             return Ok(String::new());
         }
         let ref_self = self.borrow();
         match &ref_self.i_value {
+            None if offset == 0 => Ok(String::new()),
             None => {
                 warn!("{}", MSG_INDEX_ERROR);
                 Err(Error::IndexSize)
             }
-            Some(data) => {
-                if offset >= data.len() {
-                    warn!("{}", MSG_INDEX_ERROR);
-                    Err(Error::IndexSize)
-                } else if offset + count >= data.len() {
-                    Ok(data[offset..].to_string())
-                } else {
-                    Ok(data[offset..offset + count].to_string())
-                }
-            }
+            Some(data) => Ok(data[text::utf16_range(data, offset, count)?].to_string()),
         }
     }
 
@@ -189,7 +181,7 @@ impl CharacterData for RefNode {
     }
 
     fn delete_data(&mut self, offset: usize, count: usize) -> Result<()> {
-        if offset + count == offset {
+        if count == 0 {
             return Ok(());
         }
         const NOTHING: &str = "";
@@ -200,7 +192,7 @@ impl CharacterData for RefNode {
         let mut mut_self = self.borrow_mut();
         match &mut_self.i_value {
             None => {
-                if offset + count != 0 {
+                if offset != 0 {
                     warn!("{}", MSG_INDEX_ERROR);
                     Err(Error::IndexSize)
                 } else {
@@ -209,19 +201,11 @@ impl CharacterData for RefNode {
                 }
             }
             Some(old_data) => {
-                if offset >= old_data.len() {
-                    warn!("{}", MSG_INDEX_ERROR);
-                    Err(Error::IndexSize)
-                } else {
-                    let mut new_data = old_data.clone();
-                    if offset + count >= old_data.len() {
-                        new_data.replace_range(offset.., replace_data);
-                    } else {
-                        new_data.replace_range(offset..offset + count, replace_data);
-                    }
-                    mut_self.i_value = Some(new_data);
-                    Ok(())
-                }
+                let range = text::utf16_range(old_data, offset, count)?;
+                let mut new_data = old_data.clone();
+                new_data.replace_range(range, replace_data);
+                mut_self.i_value = Some(new_data);
+                Ok(())
             }
         }
     }
diff --git a/src/level2/traits.rs b/src/level2/traits.rs
index f493a49..8c1ed10 100644
--- a/src/level2/traits.rs
+++ b/src/level2/traits.rs
@@ -130,9 +130,9 @@ pub trait CharacterData: Node {
     /// **Note:** This implementation drops the `_data` suffix from the methods for clarity.
     ///
     fn length(&self) -> usize {
-        match self.data() {
+        match self.node_value() {
             None => 0,
-            Some(s) => s.len(),
+            Some(s) => s.encode_utf16().count(),
         }
     }
     ///
@@ -1748,9 +1748,9 @@ pub trait ProcessingInstruction: Node {
     /// The number of 16-bit units that are available through `data`.
     ///
     fn length(&self) -> usize {
-        match self.data() {
+        match self.node_value() {
             None => 0,
-            Some(s) => s.len(),
+            Some(s) => s.encode_utf16().count(),
         }
     }
     ///
diff --git a/src/shared/text.rs b/src/shared/text.rs
index 4eddaed..5be72a9 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -1,5 +1,7 @@
+use crate::shared::error::{Error, Result, MSG_INDEX_ERROR};
 use crate::shared::syntax::*;
 use std::fmt::{Display, Formatter, Result as FmtResult};
+use std::ops::Range;
 use std::str::FromStr;
 use std::sync::OnceLock;
 
@@ -231,6 +233,35 @@ fn char_from_entity(entity: impl AsRef<str>) -> String {
     character.to_string()
 }
 
+///
+/// Return the byte range, in `data`, that corresponds to `count` 16-bit units starting at the 16-bit
+/// unit `offset`; a count that exceeds the length of data is taken as the end of data.
+///
+/// The error `IndexSize` is returned if `offset` is greater than the number of 16-bit units in data,
+/// or if either end of the range would be within a character.
+///
+pub(crate) fn utf16_range(data: &str, offset: usize, count: usize) -> Result<Range<usize>> {
+    let byte_index = |units: usize| {
+        let mut position = 0;
+        for (index, c) in data.char_indices() {
+            if position >= units {
+                return (position, index);
+            }
+            position += c.len_utf16();
+        }
+        (position, data.len())
+    };
+    let (start_units, start) = byte_index(offset);
+    let end_offset = offset.saturating_add(count);
+    let (end_units, end) = byte_index(end_offset);
+    if start_units != offset || end_units > end_offset {
+        warn!("{}", MSG_INDEX_ERROR);
+        Err(Error::IndexSize)
+    } else {
+        Ok(start..end)
+    }
+}
+
 ///
 /// From [XML 1.0 §2.2](https://www.w3.org/TR/REC-xml/#charsets)
 ///
@@ -450,7 +481,7 @@ impl Display for SpaceHandling {
 impl FromStr for SpaceHandling {
     type Err = ();
 
-    fn from_str(s: &str) -> Result<Self, Self::Err> {
+    fn from_str(s: &str) -> std::result::Result<Self, Self::Err> {
         if s == XML_NS_ATTR_SPACE_DEFAULT {
             Ok(SpaceHandling::Default)
         } else if s == XML_NS_ATTR_SPACE_PRESERVE {
-- 
2.43.0


From 00f200d4a113b6106346454ceba865992d1f1ffc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:03 +0000
Subject: [PATCH 11/43] fix: comment data is not escaped

---
 src/level2/traits.rs | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/src/level2/traits.rs b/src/level2/traits.rs
index 8c1ed10..fcf6fdf 100644
--- a/src/level2/traits.rs
+++ b/src/level2/traits.rs
@@ -156,10 +156,7 @@ pub trait CharacterData: Node {
     ///
     fn data(&self) -> Option<String> {
         let node_type = self.node_type();
-        match (
-            Node::node_value(self),
-            node_type == NodeType::Text || node_type == NodeType::Comment,
-        ) {
+        match (Node::node_value(self), node_type == NodeType::Text) {
             (None, _) => None,
             (v @ Some(_), false) => v,
             (Some(value), true) => Some(text::escape(value)),
-- 
2.43.0


From 9a4646efabb04879f63c72eee4876cb7b9c11290 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:05 +0000
Subject: [PATCH 12/43] fix: normalize the full depth of the tree, and
 attributes

---
 src/level2/trait_impls.rs | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 277ad11..f18257f 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1136,8 +1136,13 @@ impl Node for RefNode {
                         }
                     }
                 }
+            } else {
+                child_node.clone().normalize();
             }
         }
+        for mut attribute_node in self.attributes().into_values() {
+            attribute_node.normalize();
+        }
     }
 
     fn is_supported(&self, feature: &str, version: &str) -> bool {
-- 
2.43.0


From 30ca72d083b246f9f66d0dc5bc79fa0b04518781 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:07 +0000
Subject: [PATCH 13/43] fix: accept names that start with a multi-byte
 character

---
 src/shared/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/text.rs b/src/shared/text.rs
index 5be72a9..6b99e9b 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -420,7 +420,7 @@ pub(crate) fn is_xml_name_char(c: char) -> bool {
 ///
 pub(crate) fn is_xml_name(s: impl AsRef<str>) -> bool {
     let s = s.as_ref();
-    !s.is_empty() && s.starts_with(is_xml_name_start_char) && s[1..].chars().all(is_xml_name_char)
+    s.starts_with(is_xml_name_start_char) && s.chars().skip(1).all(is_xml_name_char)
 }
 
 ///
-- 
2.43.0


From 7ac5becb8173fa0543b45e23f6d348bf33e61fec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:08 +0000
Subject: [PATCH 14/43] fix: do not fail on references to code points that are
 not characters

---
 src/shared/text.rs | 13 +++++++++----
 1 file changed, 9 insertions(+), 4 deletions(-)

diff --git a/src/shared/text.rs b/src/shared/text.rs
index 6b99e9b..43da4c9 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -224,13 +224,18 @@ fn char_from_entity(entity: impl AsRef<str>) -> String {
     assert!(entity.ends_with(';'));
     let code_point = if &entity[2..3] == "x" {
         let code_point = &entity[3..entity.len() - 1];
-        u32::from_str_radix(code_point, 16).unwrap()
+        u32::from_str_radix(code_point, 16)
     } else {
         let code_point = &entity[2..entity.len() - 1];
-        code_point.parse::<u32>().unwrap()
+        code_point.parse::<u32>()
     };
-    let character = char::try_from(code_point).unwrap();
-    character.to_string()
+    match code_point.ok().and_then(char::from_u32) {
+        Some(character) => character.to_string(),
+        None => {
+            warn!("{} is not a reference to a character", entity);
+            entity.to_string()
+        }
+    }
 }
 
 ///
-- 
2.43.0


From 45763b60a6c9d43c8ec04a7966fa923691451965 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:51 +0000
Subject: [PATCH 15/43] fix: an unknown entity reference in an attribute value
 is literal text, not a panic

---
 src/level2/entity_resolver.rs | 3 ++-
 src/shared/text.rs            | 5 ++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/src/level2/entity_resolver.rs b/src/level2/entity_resolver.rs
index 3f633d4..65edbfc 100644
--- a/src/level2/entity_resolver.rs
+++ b/src/level2/entity_resolver.rs
@@ -31,7 +31,8 @@ impl EntityResolver for RefNode {
             None => None,
             Some(doc_type) => {
                 let doc_type = as_document_type(&doc_type).unwrap();
-                let name = Name::from_str(entity).unwrap();
+                let entity = entity.trim_start_matches(['&', '%']).trim_end_matches(';');
+                let name = Name::from_str(entity).ok()?;
                 match doc_type.entities().get(&name) {
                     None => None,
                     Some(entity) => entity.node_value(),
diff --git a/src/shared/text.rs b/src/shared/text.rs
index 43da4c9..dd0a6ba 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -86,7 +86,10 @@ pub(crate) fn normalize_attribute_value(
                 // TODO: this does not yet deal with entity references.
                 //
                 let replacement = match resolver.resolve(a_match.as_str()) {
-                    None => panic!("unknown entity reference {}", a_match.as_str()),
+                    None => {
+                        warn!("unknown entity reference {}", a_match.as_str());
+                        a_match.as_str().to_string()
+                    }
                     Some(replacement) => {
                         normalize_attribute_value(&replacement, resolver, is_cdata)
                     }
-- 
2.43.0


From 137ce3406dda109e4f8bf5c51fe7e35229ebdf57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:53 +0000
Subject: [PATCH 16/43] fix: feature names are case-insensitive, and the
 version is optional

---
 src/level2/trait_impls.rs | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index f18257f..6a350d4 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -422,8 +422,9 @@ impl DOMImplementation for Implementation {
     }
 
     fn has_feature(&self, feature: &str, version: &str) -> bool {
-        (feature == XML_FEATURE_CORE || feature == XML_FEATURE_XML)
-            && (version == XML_FEATURE_V1 || version == XML_FEATURE_V2)
+        (feature.eq_ignore_ascii_case(XML_FEATURE_CORE)
+            || feature.eq_ignore_ascii_case(XML_FEATURE_XML))
+            && (version.is_empty() || version == XML_FEATURE_V1 || version == XML_FEATURE_V2)
     }
 }
 
-- 
2.43.0


From 7ec8687a53598cf1741f45b256bee9b6c1bbc9ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:54 +0000
Subject: [PATCH 17/43] fix: a document type belongs to the one document it was
 used to create

---
 src/level2/trait_impls.rs | 16 +++++++++++++++-
 1 file changed, 15 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 6a350d4..1062d51 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1504,7 +1504,17 @@ pub(crate) fn create_document_with_options(
     doc_type: Option<RefNode>,
     options: ProcessingOptions,
 ) -> Result<RefNode> {
-    let node_impl = NodeImpl::new_document(doc_type, options);
+    if let Some(doc_type) = &doc_type {
+        if !is_document_type(doc_type) {
+            warn!("{}", MSG_INVALID_NODE_TYPE);
+            return Err(Error::InvalidState);
+        }
+        if doc_type.borrow().i_owner_document.is_some() {
+            warn!("Error::WrongDocument: document type is already in use");
+            return Err(Error::WrongDocument);
+        }
+    }
+    let node_impl = NodeImpl::new_document(doc_type.clone(), options);
     let mut document_node = RefNode::new(node_impl);
 
     //
@@ -1530,5 +1540,9 @@ pub(crate) fn create_document_with_options(
         let _safe_to_ignore = document.append_child(element_node)?;
     }
 
+    if let Some(doc_type) = doc_type {
+        doc_type.borrow_mut().i_owner_document = Some(document_node.clone().downgrade());
+    }
+
     Ok(document_node)
 }
-- 
2.43.0


From a31bc86044c27bcc4b67c5a9252467cf4897c1dc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:56 +0000
Subject: [PATCH 18/43] fix: setting the node value affects only nodes that
 have one, attributes included

---
 src/level2/trait_impls.rs | 26 ++++++++++++++++++++++++++
 1 file changed, 26 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 1062d51..1e157f8 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -804,17 +804,29 @@ impl Node for RefNode {
     }
 
     fn node_value(&self) -> Option<String> {
+        if is_attribute(self) {
+            return self.value();
+        }
         let ref_self = self.borrow();
         ref_self.i_value.clone()
     }
 
     fn set_node_value(&mut self, value: &str) -> Result<()> {
+        if is_attribute(self) {
+            return self.set_value(value);
+        }
+        if !has_node_value(self) {
+            return Ok(());
+        }
         let mut mut_self = self.borrow_mut();
         mut_self.i_value = Some(value.to_string());
         Ok(())
     }
 
     fn unset_node_value(&mut self) -> Result<()> {
+        if is_attribute(self) {
+            return self.unset_value();
+        }
         let mut mut_self = self.borrow_mut();
         mut_self.i_value = None;
         Ok(())
@@ -1305,6 +1317,20 @@ fn replace_attribute_children(attribute: &mut RefNode, new_attribute: RefNode) -
     Ok(())
 }
 
+//
+// The value of any other type of node is defined to be `None`, and setting it has no effect.
+//
+fn has_node_value(node: &RefNode) -> bool {
+    matches!(
+        node.borrow().i_node_type,
+        NodeType::Text
+            | NodeType::CData
+            | NodeType::Comment
+            | NodeType::ProcessingInstruction
+            | NodeType::Entity
+    )
+}
+
 //
 // Two attributes with these names may not both be present on the same element.
 //
-- 
2.43.0


From 688596da836adc1b0bfee8092a46e6828a1550b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:23 +0000
Subject: [PATCH 19/43] fix: a cloned node is the parent of its children and
 has its own attributes

---
 src/level2/trait_impls.rs | 24 +++++++++++++++++++++++-
 1 file changed, 23 insertions(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 1e157f8..05f8d69 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1125,7 +1125,29 @@ impl Node for RefNode {
     fn clone_node(&self, deep: bool) -> Option<RefNode> {
         let ref_self = self.borrow();
         let new_node = ref_self.clone_node(deep);
-        Some(RefNode::new(new_node))
+        let new_node = RefNode::new(new_node);
+        //
+        // The new node is the parent of its children, and has its own copy of each attribute.
+        //
+        for child_node in new_node.child_nodes() {
+            child_node.borrow_mut().i_parent_node = Some(new_node.clone().downgrade());
+        }
+        match &mut new_node.borrow_mut().i_extension {
+            Extension::Element { i_attributes, .. } => {
+                for attribute in i_attributes.values_mut() {
+                    *attribute = attribute.clone_node(true)?;
+                    if let Extension::Attribute {
+                        i_owner_element, ..
+                    } = &mut attribute.borrow_mut().i_extension
+                    {
+                        *i_owner_element = Some(new_node.clone().downgrade());
+                    }
+                }
+            }
+            Extension::Attribute { i_owner_element } => *i_owner_element = None,
+            _ => (),
+        }
+        Some(new_node)
     }
 
     fn normalize(&mut self) {
-- 
2.43.0


From 8687ed2f79a241e494b5dd450240b7b3a3e3e3aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:45:57 +0000
Subject: [PATCH 20/43] fix: the quick_parser feature builds with the quick-xml
 version it asks for

---
 src/parser/mod.rs | 14 ++++++++------
 1 file changed, 8 insertions(+), 6 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index d4e04be..89e1a3c 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -23,7 +23,8 @@ use crate::level2::ext::{XmlDecl, XmlVersion};
 use crate::level2::node_impl::Extension;
 use crate::level2::*;
 use crate::shared::error::Error as DOMError;
-use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesStart, BytesText, Event};
+use quick_xml::escape::unescape;
+use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesPI, BytesStart, BytesText, Event};
 use quick_xml::reader::Reader;
 use std::borrow::Borrow;
 use std::io::BufRead;
@@ -90,7 +91,7 @@ impl<T> From<Error> for Result<T> {
 // ------------------------------------------------------------------------------------------------
 
 fn inner_read<T: BufRead>(reader: &mut Reader<T>) -> Result<RefNode> {
-    let _safe_to_ignore = reader.trim_text(true);
+    reader.config_mut().trim_text(true);
 
     let mut event_buffer: Vec<u8> = Vec::new();
 
@@ -259,7 +260,7 @@ fn handle_start<T: BufRead>(
 
     for attribute in ev.attributes() {
         let attribute = attribute.unwrap();
-        let value = attribute.decode_and_unescape_value(reader)?;
+        let value = attribute.decode_and_unescape_value(reader.decoder())?;
         let name = reader.decoder().decode(attribute.key.into_inner())?;
         let attribute_node = document.create_attribute_with(&name, &value)?;
         let _safe_to_ignore = element.set_attribute_node(attribute_node)?;
@@ -328,13 +329,14 @@ fn handle_cdata<T: BufRead>(
 }
 
 fn handle_pi<T: BufRead>(
-    _reader: &mut Reader<T>,
+    reader: &mut Reader<T>,
     document: &mut RefNode,
     parent_node: Option<&mut RefNode>,
-    ev: BytesText<'_>,
+    ev: BytesPI<'_>,
 ) -> Result<RefNode> {
     let mut_document = as_document_mut(document).unwrap();
-    let text = ev.unescape()?;
+    let text = reader.decoder().decode(&ev)?;
+    let text = unescape(&text).map_err(quick_xml::Error::from)?;
     let parts = text.splitn(2, ' ').collect::<Vec<&str>>();
     let (target, data) = match parts.len() {
         1 => (parts[0].to_string(), None),
-- 
2.43.0


From 237e0c474f2e750e3fc5ed068b36acdea3505215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:47:46 +0000
Subject: [PATCH 21/43] fix: the parser rejects ill-formed documents with an
 error, without panics

---
 src/level2/ext/decl.rs |   2 +-
 src/parser/mod.rs      | 124 ++++++++++++++++++++++-------------------
 2 files changed, 67 insertions(+), 59 deletions(-)

diff --git a/src/level2/ext/decl.rs b/src/level2/ext/decl.rs
index b64e5d3..26094ba 100644
--- a/src/level2/ext/decl.rs
+++ b/src/level2/ext/decl.rs
@@ -68,7 +68,7 @@ fn is_encoding_sub_string(s: &str) -> bool {
     s.chars().all(is_encoding_rest_char)
 }
 
-fn is_encoding(s: &str) -> bool {
+pub(crate) fn is_encoding(s: &str) -> bool {
     !s.is_empty()
         && s.starts_with(is_encoding_start_char)
         && s[1..].split(ENCODING_SEP_CHAR).all(is_encoding_sub_string)
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 89e1a3c..1b28376 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -18,15 +18,20 @@ assert!(dom.is_ok());
 
 */
 
-use crate::level2::convert::as_document_mut;
+use crate::level2::convert::{as_document, as_document_mut};
+use crate::level2::ext::decl::is_encoding;
 use crate::level2::ext::{XmlDecl, XmlVersion};
 use crate::level2::node_impl::Extension;
 use crate::level2::*;
 use crate::shared::error::Error as DOMError;
+use crate::shared::syntax::{
+    XML_DECL_ENCODING, XML_DECL_STANDALONE, XML_DECL_STANDALONE_NO, XML_DECL_STANDALONE_YES,
+    XML_DECL_VERSION, XML_PI_RESERVED,
+};
 use quick_xml::escape::unescape;
+use quick_xml::events::attributes::Attributes;
 use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesPI, BytesStart, BytesText, Event};
 use quick_xml::reader::Reader;
-use std::borrow::Borrow;
 use std::io::BufRead;
 use std::str::FromStr;
 
@@ -91,7 +96,9 @@ impl<T> From<Error> for Result<T> {
 // ------------------------------------------------------------------------------------------------
 
 fn inner_read<T: BufRead>(reader: &mut Reader<T>) -> Result<RefNode> {
-    reader.config_mut().trim_text(true);
+    let config = reader.config_mut();
+    config.trim_text(true);
+    config.enable_all_checks(true);
 
     let mut event_buffer: Vec<u8> = Vec::new();
 
@@ -127,27 +134,23 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
         match reader.read_event_into(event_buffer) {
             Ok(Event::Decl(ev)) => {
                 let mut mut_document = document.borrow_mut();
+                let has_content = !mut_document.i_child_nodes.is_empty();
                 if let Extension::Document {
                     i_xml_declaration, ..
                 } = &mut mut_document.i_extension
                 {
-                    if i_xml_declaration.is_some() {
+                    if i_xml_declaration.is_some() || has_content {
                         error!("XML declaration must be first");
                         return Error::Malformed.into();
                     } else {
-                        let (version, encoding, standalone) = make_decl(reader, ev)?;
-                        *i_xml_declaration = Some(XmlDecl::new(
-                            XmlVersion::from_str(&version).unwrap(),
-                            encoding,
-                            standalone,
-                        ));
+                        *i_xml_declaration = Some(make_decl(reader, ev)?);
                     }
                 }
             }
             Ok(Event::Start(ev)) => {
                 let mut new_element = handle_start(reader, &mut document, None, ev)?;
                 let _safe_to_ignore =
-                    element(reader, event_buffer, &mut document, &mut new_element);
+                    element(reader, event_buffer, &mut document, &mut new_element)?;
             }
             Ok(Event::Empty(ev)) => {
                 let _safe_to_ignore = handle_start(reader, &mut document, None, ev)?;
@@ -172,7 +175,15 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
             //     }
             //     prolog_pre_nodes.push(make_doc_type(reader, ev)?);
             // }
-            Ok(Event::Eof) => return Ok(document),
+            Ok(Event::Eof) => {
+                let has_element = as_document(&document)?.document_element().is_some();
+                return if has_element {
+                    Ok(document)
+                } else {
+                    error!("a document must have a document element");
+                    Error::Malformed.into()
+                };
+            }
             Ok(ev) => {
                 error!("Unexpected parser event: {:?}", ev);
                 return Error::Malformed.into();
@@ -250,7 +261,7 @@ fn handle_start<T: BufRead>(
     let mut element = {
         let mut_document = as_document_mut(document).unwrap();
         let name = reader.decoder().decode(ev.name().into_inner())?;
-        let new_node = mut_document.create_element(&name).unwrap();
+        let new_node = mut_document.create_element(&name)?;
         let mut actual_parent = match parent_node {
             None => document.clone(),
             Some(actual) => actual.clone(),
@@ -259,7 +270,7 @@ fn handle_start<T: BufRead>(
     };
 
     for attribute in ev.attributes() {
-        let attribute = attribute.unwrap();
+        let attribute = attribute.map_err(quick_xml::Error::from)?;
         let value = attribute.decode_and_unescape_value(reader.decoder())?;
         let name = reader.decoder().decode(attribute.key.into_inner())?;
         let attribute_node = document.create_attribute_with(&name, &value)?;
@@ -320,7 +331,7 @@ fn handle_cdata<T: BufRead>(
 ) -> Result<RefNode> {
     let mut_document = as_document_mut(document).unwrap();
     let text = make_cdata(reader, ev)?;
-    let new_node = mut_document.create_cdata_section(text.as_ref()).unwrap();
+    let new_node = mut_document.create_cdata_section(text.as_ref())?;
     let actual_parent = match parent_node {
         None => document,
         Some(actual) => actual,
@@ -351,12 +362,8 @@ fn handle_pi<T: BufRead>(
         _ => return Error::Malformed.into(),
     };
     let new_node = match data {
-        None => mut_document
-            .create_processing_instruction(&target, None)
-            .unwrap(),
-        Some(s) => mut_document
-            .create_processing_instruction(&target, Some(s.as_str()))
-            .unwrap(),
+        None => mut_document.create_processing_instruction(&target, None)?,
+        Some(s) => mut_document.create_processing_instruction(&target, Some(s.as_str()))?,
     };
     let actual_parent = match parent_node {
         None => document,
@@ -377,43 +384,44 @@ fn make_cdata<T: BufRead>(reader: &mut Reader<T>, ev: BytesCData<'_>) -> Result<
     Ok(decoded_string.to_string())
 }
 
-fn make_decl<T: BufRead>(
-    reader: &mut Reader<T>,
-    ev: BytesDecl<'_>,
-) -> Result<(String, Option<String>, Option<bool>)> {
-    let version = ev.version().unwrap();
-    let version = version.borrow();
-    let version = reader.decoder().decode(version).unwrap();
-    let version = unquote(version.to_string())?;
-    let encoding = if let Some(ev_value) = ev.encoding() {
-        let encoding = ev_value.unwrap();
-        let encoding = encoding.borrow();
-        let encoding = reader.decoder().decode(encoding).unwrap();
-        Some(encoding.to_string())
-    } else {
-        None
-    };
-    let standalone = if let Some(ev_value) = ev.standalone() {
-        let standalone = ev_value.unwrap();
-        let standalone = standalone.borrow();
-        let standalone = reader.decoder().decode(standalone).unwrap();
-        Some(standalone == "yes")
-    } else {
-        None
-    };
-    Ok((version, encoding, standalone))
-}
-
-#[allow(clippy::if_same_then_else)]
-fn unquote(s: String) -> Result<String> {
-    if s.starts_with('"') && s.ends_with('"') {
-        Ok(s[1..s.len() - 1].to_string())
-    } else if s.starts_with('\'') && s.ends_with('\'') {
-        Ok(s[1..s.len() - 1].to_string())
-    } else if s.starts_with('"') || s.starts_with('\'') {
-        Error::InvalidCharacter.into()
-    } else {
-        Ok(s)
+///
+/// The parameters of a declaration are the version, an optional encoding, and an optional standalone
+/// flag, in that order.
+///
+fn make_decl<T: BufRead>(reader: &mut Reader<T>, ev: BytesDecl<'_>) -> Result<XmlDecl> {
+    let decoder = reader.decoder();
+    let content = decoder.decode(&ev)?;
+    let mut version = None;
+    let mut encoding = None;
+    let mut standalone = None;
+    for parameter in Attributes::new(&content, XML_PI_RESERVED.len()) {
+        let parameter = parameter.map_err(quick_xml::Error::from)?;
+        let name = decoder.decode(parameter.key.into_inner())?;
+        let value = decoder.decode(&parameter.value)?;
+        if name == XML_DECL_VERSION && version.is_none() {
+            version = XmlVersion::from_str(&value).ok();
+        } else if name == XML_DECL_ENCODING
+            && encoding.is_none()
+            && standalone.is_none()
+            && is_encoding(&value)
+        {
+            encoding = Some(value.to_string());
+        } else if name == XML_DECL_STANDALONE && value == XML_DECL_STANDALONE_YES {
+            standalone = Some(true);
+        } else if name == XML_DECL_STANDALONE && value == XML_DECL_STANDALONE_NO {
+            standalone = Some(false);
+        } else {
+            error!("Unexpected parameter in XML declaration: {}", name);
+            return Error::Malformed.into();
+        }
+        if version.is_none() {
+            error!("XML declaration must have a supported version, first");
+            return Error::Malformed.into();
+        }
+    }
+    match version {
+        Some(version) => Ok(XmlDecl::new(version, encoding, standalone)),
+        None => Error::Malformed.into(),
     }
 }
 
-- 
2.43.0


From 6b6531c8386e786ea0b270ee817b6e930d157525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:48:01 +0000
Subject: [PATCH 22/43] fix: the parser keeps comments, instructions and
 attribute values as written

---
 src/parser/mod.rs | 52 ++++++++++++++++++++++++-----------------------
 1 file changed, 27 insertions(+), 25 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 1b28376..08dcdc2 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -26,9 +26,9 @@ use crate::level2::*;
 use crate::shared::error::Error as DOMError;
 use crate::shared::syntax::{
     XML_DECL_ENCODING, XML_DECL_STANDALONE, XML_DECL_STANDALONE_NO, XML_DECL_STANDALONE_YES,
-    XML_DECL_VERSION, XML_PI_RESERVED,
+    XML_DECL_VERSION, XML_ESC_AMP_CHAR, XML_PI_RESERVED,
 };
-use quick_xml::escape::unescape;
+use crate::shared::text::to_entity;
 use quick_xml::events::attributes::Attributes;
 use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesPI, BytesStart, BytesText, Event};
 use quick_xml::reader::Reader;
@@ -159,7 +159,7 @@ fn document<T: BufRead>(reader: &mut Reader<T>, event_buffer: &mut Vec<u8>) -> R
                 let _safe_to_ignore = handle_end(reader, &mut document, None, ev)?;
             }
             Ok(Event::Comment(ev)) => {
-                let _safe_to_ignore = handle_comment(&mut document, None, ev)?;
+                let _safe_to_ignore = handle_comment(reader, &mut document, None, ev)?;
             }
             Ok(Event::PI(ev)) => {
                 let _safe_to_ignore = handle_pi(reader, &mut document, None, ev)?;
@@ -227,7 +227,7 @@ fn element<T: BufRead>(
                 return Ok(parent_element.clone());
             }
             Ok(Event::Comment(ev)) => {
-                let _safe_to_ignore = handle_comment(document, Some(parent_element), ev)?;
+                let _safe_to_ignore = handle_comment(reader, document, Some(parent_element), ev)?;
             }
             Ok(Event::PI(ev)) => {
                 let _safe_to_ignore = handle_pi(reader, document, Some(parent_element), ev)?;
@@ -273,6 +273,11 @@ fn handle_start<T: BufRead>(
         let attribute = attribute.map_err(quick_xml::Error::from)?;
         let value = attribute.decode_and_unescape_value(reader.decoder())?;
         let name = reader.decoder().decode(attribute.key.into_inner())?;
+        //
+        // References have been replaced by now; the characters the value has are not to be taken as
+        // references again when it is read from the attribute.
+        //
+        let value = value.replace(XML_ESC_AMP_CHAR, &to_entity(XML_ESC_AMP_CHAR));
         let attribute_node = document.create_attribute_with(&name, &value)?;
         let _safe_to_ignore = element.set_attribute_node(attribute_node)?;
     }
@@ -293,13 +298,17 @@ fn handle_end<T: BufRead>(
     .clone())
 }
 
-fn handle_comment(
+fn handle_comment<T: BufRead>(
+    reader: &mut Reader<T>,
     document: &mut RefNode,
     parent_node: Option<&mut RefNode>,
     ev: BytesText<'_>,
 ) -> Result<RefNode> {
     let mut_document = as_document_mut(document).unwrap();
-    let text = make_text(ev)?;
+    //
+    // References are not recognized in a comment.
+    //
+    let text = reader.decoder().decode(&ev)?;
     let new_node = mut_document.create_comment(&text);
     let actual_parent = match parent_node {
         None => document,
@@ -346,25 +355,14 @@ fn handle_pi<T: BufRead>(
     ev: BytesPI<'_>,
 ) -> Result<RefNode> {
     let mut_document = as_document_mut(document).unwrap();
-    let text = reader.decoder().decode(&ev)?;
-    let text = unescape(&text).map_err(quick_xml::Error::from)?;
-    let parts = text.splitn(2, ' ').collect::<Vec<&str>>();
-    let (target, data) = match parts.len() {
-        1 => (parts[0].to_string(), None),
-        2 => {
-            let data = parts[1].trim();
-            if data.is_empty() {
-                (parts[0].to_string(), None)
-            } else {
-                (parts[0].to_string(), Some(data.to_string()))
-            }
-        }
-        _ => return Error::Malformed.into(),
-    };
-    let new_node = match data {
-        None => mut_document.create_processing_instruction(&target, None)?,
-        Some(s) => mut_document.create_processing_instruction(&target, Some(s.as_str()))?,
-    };
+    //
+    // References are not recognized in a processing instruction.
+    //
+    let decoder = reader.decoder();
+    let target = decoder.decode(ev.target())?;
+    let data = decoder.decode(ev.content())?;
+    let data = Some(data.trim_matches(is_space)).filter(|data| !data.is_empty());
+    let new_node = mut_document.create_processing_instruction(&target, data)?;
     let actual_parent = match parent_node {
         None => document,
         Some(actual) => actual,
@@ -374,6 +372,10 @@ fn handle_pi<T: BufRead>(
 
 // ------------------------------------------------------------------------------------------------
 
+fn is_space(c: char) -> bool {
+    matches!(c, '\u{20}' | '\u{9}' | '\u{D}' | '\u{A}')
+}
+
 fn make_text(ev: BytesText<'_>) -> Result<String> {
     Ok(ev.unescape()?.to_string())
 }
-- 
2.43.0


From 8954973de72a8395da5da2846a0f8207e74872c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:29 +0000
Subject: [PATCH 23/43] fix: white space that would be normalized when read
 back is written as references

---
 src/shared/display.rs | 12 ++++++++++--
 src/shared/text.rs    | 18 ++++++++++++++++++
 2 files changed, 28 insertions(+), 2 deletions(-)

diff --git a/src/shared/display.rs b/src/shared/display.rs
index e4cd63f..3515b9d 100644
--- a/src/shared/display.rs
+++ b/src/shared/display.rs
@@ -2,6 +2,7 @@ use crate::level2::convert::*;
 use crate::level2::ext::convert::{as_document_decl, RefDocumentDecl};
 use crate::level2::*;
 use crate::shared::syntax::*;
+use crate::shared::text;
 use std::fmt::{Formatter, Result as FmtResult};
 
 // ------------------------------------------------------------------------------------------------
@@ -31,14 +32,21 @@ pub(crate) fn fmt_attribute(attribute: RefAttribute<'_>, f: &mut Formatter<'_>)
         f,
         "{}=\"{}\"",
         attribute.node_name(),
-        attribute.value().unwrap_or_default()
+        text::white_space_to_entities(
+            attribute.value().unwrap_or_default(),
+            &['\u{09}', '\u{0A}', '\u{0D}']
+        )
     )
 }
 
 pub(crate) fn fmt_text(character_data: RefCharacterData<'_>, f: &mut Formatter<'_>) -> FmtResult {
     match character_data.data() {
         None => Ok(()),
-        Some(data) => write!(f, "{}", data),
+        Some(data) => write!(
+            f,
+            "{}",
+            text::white_space_to_entities(data, &['\u{0D}'])
+        ),
     }
 }
 
diff --git a/src/shared/text.rs b/src/shared/text.rs
index dd0a6ba..d4c293a 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -213,6 +213,24 @@ pub(crate) fn to_entity(c: char) -> String {
     )
 }
 
+///
+/// Replace each of the `white_space` characters in `input` with a character reference. This is for those
+/// characters that would be changed, by end-of-line handling or attribute value normalization, if they
+/// were to be read back as they are.
+///
+pub(crate) fn white_space_to_entities(input: String, white_space: &[char]) -> String {
+    let mut result = String::with_capacity(input.len());
+
+    for c in input.chars() {
+        if white_space.contains(&c) {
+            result.push_str(&to_entity(c));
+        } else {
+            result.push(c);
+        }
+    }
+    result
+}
+
 #[allow(dead_code)]
 pub(crate) fn to_entity_hex(c: char) -> String {
     format!(
-- 
2.43.0


From aa2d0a026131d63d7db567e2f2a32c3e6918e117 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:53:32 +0000
Subject: [PATCH 24/43] fix: the parser keeps white space that an attribute
 value has by reference

---
 src/parser/mod.rs | 28 ++++++++++++++++++++++------
 1 file changed, 22 insertions(+), 6 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 08dcdc2..62da32f 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -29,6 +29,7 @@ use crate::shared::syntax::{
     XML_DECL_VERSION, XML_ESC_AMP_CHAR, XML_PI_RESERVED,
 };
 use crate::shared::text::to_entity;
+use quick_xml::escape::unescape;
 use quick_xml::events::attributes::Attributes;
 use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesPI, BytesStart, BytesText, Event};
 use quick_xml::reader::Reader;
@@ -271,13 +272,9 @@ fn handle_start<T: BufRead>(
 
     for attribute in ev.attributes() {
         let attribute = attribute.map_err(quick_xml::Error::from)?;
-        let value = attribute.decode_and_unescape_value(reader.decoder())?;
+        let value = reader.decoder().decode(&attribute.value)?;
+        let value = make_attribute_value(&value)?;
         let name = reader.decoder().decode(attribute.key.into_inner())?;
-        //
-        // References have been replaced by now; the characters the value has are not to be taken as
-        // references again when it is read from the attribute.
-        //
-        let value = value.replace(XML_ESC_AMP_CHAR, &to_entity(XML_ESC_AMP_CHAR));
         let attribute_node = document.create_attribute_with(&name, &value)?;
         let _safe_to_ignore = element.set_attribute_node(attribute_node)?;
     }
@@ -376,6 +373,25 @@ fn is_space(c: char) -> bool {
     matches!(c, '\u{20}' | '\u{9}' | '\u{D}' | '\u{A}')
 }
 
+//
+// White space is normalized before references are replaced. The characters that result from references
+// are not, and neither are they to be taken for white space, or references, again when the value is read
+// from the attribute.
+//
+fn make_attribute_value(value: &str) -> Result<String> {
+    let value = value.replace("\u{0D}\u{0A}", " ").replace(is_space, " ");
+    let value = unescape(&value).map_err(quick_xml::Error::from)?;
+    let mut result = String::with_capacity(value.len());
+    for c in value.chars() {
+        if c == XML_ESC_AMP_CHAR || (c != ' ' && c.is_whitespace()) {
+            result.push_str(&to_entity(c));
+        } else {
+            result.push(c);
+        }
+    }
+    Ok(result)
+}
+
 fn make_text(ev: BytesText<'_>) -> Result<String> {
     Ok(ev.unescape()?.to_string())
 }
-- 
2.43.0


From d0bd6f748a4463936280918b8f034b4844c39e6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:21:51 +0000
Subject: [PATCH 25/43] fix: a name's prefix can only be set to a name, and a
 reserved one only with its namespace

---
 src/shared/name.rs | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/src/shared/name.rs b/src/shared/name.rs
index 3d69425..f511c9a 100644
--- a/src/shared/name.rs
+++ b/src/shared/name.rs
@@ -375,7 +375,12 @@ impl Name {
     /// Set this name's prefix.
     ///
     pub fn set_prefix(&mut self, new_prefix: Option<&str>) -> Result<()> {
-        self.prefix = new_prefix.map(String::from);
+        let new_prefix = new_prefix.map(Self::check_part).transpose()?;
+        if let Some(namespace_uri) = &self.namespace_uri {
+            let _safe_to_ignore =
+                Self::check_namespace_uri(namespace_uri, &new_prefix, &self.local_name)?;
+        }
+        self.prefix = new_prefix;
         Ok(())
     }
 }
-- 
2.43.0


From 6105ba3affdc5ed500a78f12c256fe1df362d424 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:31:50 +0000
Subject: [PATCH 26/43] fix: a prefix cannot hold a colon

---
 src/shared/name.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/name.rs b/src/shared/name.rs
index f511c9a..5cfc714 100644
--- a/src/shared/name.rs
+++ b/src/shared/name.rs
@@ -171,7 +171,7 @@ impl Name {
         let part = part.as_ref();
         if part.is_empty() {
             Err(Error::Syntax)
-        } else if is_xml_name(part) {
+        } else if is_xml_name(part) && !part.contains(XML_NS_SEPARATOR) {
             Ok(part.to_string())
         } else {
             Err(Error::InvalidCharacter)
-- 
2.43.0


From 24d75a60ae9afb78139f099dd541db29cc4db6ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:34 +0000
Subject: [PATCH 27/43] fix: the parser folds line ends in text, CDATA,
 comments and instructions

---
 src/parser/mod.rs | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 62da32f..7280e6e 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -234,7 +234,7 @@ fn element<T: BufRead>(
                 let _safe_to_ignore = handle_pi(reader, document, Some(parent_element), ev)?;
             }
             Ok(Event::Text(ev)) => {
-                let _safe_to_ignore = handle_text(document, Some(parent_element), ev)?;
+                let _safe_to_ignore = handle_text(reader, document, Some(parent_element), ev)?;
             }
             Ok(Event::CData(ev)) => {
                 let _safe_to_ignore = handle_cdata(reader, document, Some(parent_element), ev)?;
@@ -305,7 +305,7 @@ fn handle_comment<T: BufRead>(
     //
     // References are not recognized in a comment.
     //
-    let text = reader.decoder().decode(&ev)?;
+    let text = fold_line_ends(&reader.decoder().decode(&ev)?);
     let new_node = mut_document.create_comment(&text);
     let actual_parent = match parent_node {
         None => document,
@@ -314,13 +314,14 @@ fn handle_comment<T: BufRead>(
     actual_parent.append_child(new_node).map_err(|e| e.into())
 }
 
-fn handle_text(
+fn handle_text<T: BufRead>(
+    reader: &mut Reader<T>,
     document: &mut RefNode,
     parent_node: Option<&mut RefNode>,
     ev: BytesText<'_>,
 ) -> Result<RefNode> {
     let mut_document = as_document_mut(document).unwrap();
-    let text = make_text(ev)?;
+    let text = make_text(reader, ev)?;
     let new_node = mut_document.create_text_node(&text);
     let actual_parent = match parent_node {
         None => document,
@@ -357,7 +358,7 @@ fn handle_pi<T: BufRead>(
     //
     let decoder = reader.decoder();
     let target = decoder.decode(ev.target())?;
-    let data = decoder.decode(ev.content())?;
+    let data = fold_line_ends(&decoder.decode(ev.content())?);
     let data = Some(data.trim_matches(is_space)).filter(|data| !data.is_empty());
     let new_node = mut_document.create_processing_instruction(&target, data)?;
     let actual_parent = match parent_node {
@@ -392,14 +393,24 @@ fn make_attribute_value(value: &str) -> Result<String> {
     Ok(result)
 }
 
-fn make_text(ev: BytesText<'_>) -> Result<String> {
-    Ok(ev.unescape()?.to_string())
+//
+// Line ends are folded before references are replaced, `&#13;` stands for itself.
+//
+fn fold_line_ends(text: &str) -> String {
+    text.replace("\u{0D}\u{0A}", "\u{0A}")
+        .replace('\u{0D}', "\u{0A}")
+}
+
+fn make_text<T: BufRead>(reader: &mut Reader<T>, ev: BytesText<'_>) -> Result<String> {
+    let text = fold_line_ends(&reader.decoder().decode(&ev)?);
+    let text = unescape(&text).map_err(quick_xml::Error::from)?;
+    Ok(text.to_string())
 }
 
 fn make_cdata<T: BufRead>(reader: &mut Reader<T>, ev: BytesCData<'_>) -> Result<String> {
     let cdata_bytes = ev.into_inner();
     let decoded_string = reader.decoder().decode(cdata_bytes.as_ref())?;
-    Ok(decoded_string.to_string())
+    Ok(fold_line_ends(&decoded_string))
 }
 
 ///
-- 
2.43.0


From c18413552647e5ce083d7119cd4e163fb7a0a457 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:43:37 +0000
Subject: [PATCH 28/43] fix: the parser keeps white space at the end of an
 instruction

---
 src/parser/mod.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 7280e6e..578b576 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -359,7 +359,7 @@ fn handle_pi<T: BufRead>(
     let decoder = reader.decoder();
     let target = decoder.decode(ev.target())?;
     let data = fold_line_ends(&decoder.decode(ev.content())?);
-    let data = Some(data.trim_matches(is_space)).filter(|data| !data.is_empty());
+    let data = Some(data.trim_start_matches(is_space)).filter(|data| !data.is_empty());
     let new_node = mut_document.create_processing_instruction(&target, data)?;
     let actual_parent = match parent_node {
         None => document,
-- 
2.43.0


From 81aa77cf3340769ae77505691b39b5a0ecc37a2f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:48:32 +0000
Subject: [PATCH 29/43] fix: a parsed document does not depend on how its
 reader delivers it

---
 src/parser/mod.rs | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 578b576..4686d4c 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -82,8 +82,15 @@ pub fn read_xml(xml: impl AsRef<str>) -> Result<RefNode> {
 /// Parse the provided string into a DOM structure; if the result is OK, the result returned
 /// can be safely assumed to be a `Document` node.
 ///
-pub fn read_reader<B: BufRead>(reader: B) -> Result<RefNode> {
-    inner_read(&mut Reader::from_reader(reader))
+pub fn read_reader<B: BufRead>(mut reader: B) -> Result<RefNode> {
+    //
+    // Read everything first, quick-xml drops text where it ends at the end of the reader's buffer.
+    //
+    let mut content: Vec<u8> = Vec::new();
+    let _safe_to_ignore = reader
+        .read_to_end(&mut content)
+        .map_err(quick_xml::Error::from)?;
+    inner_read(&mut Reader::from_reader(content.as_slice()))
 }
 
 impl<T> From<Error> for Result<T> {
-- 
2.43.0


From 98ac2a66be1910ee1ac4659a6a285c7dbc090d69 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:53:00 +0000
Subject: [PATCH 30/43] fix: the parser rejects attributes without white space
 between them, or with '<' in a value

---
 src/parser/mod.rs | 30 +++++++++++++++++++++++++++++-
 1 file changed, 29 insertions(+), 1 deletion(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 4686d4c..ec30e20 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -26,7 +26,8 @@ use crate::level2::*;
 use crate::shared::error::Error as DOMError;
 use crate::shared::syntax::{
     XML_DECL_ENCODING, XML_DECL_STANDALONE, XML_DECL_STANDALONE_NO, XML_DECL_STANDALONE_YES,
-    XML_DECL_VERSION, XML_ESC_AMP_CHAR, XML_PI_RESERVED,
+    XML_DECL_VERSION, XML_ESC_AMP_CHAR, XML_ESC_APOS_CHAR, XML_ESC_LT_CHAR, XML_ESC_QUOT_CHAR,
+    XML_PI_RESERVED,
 };
 use crate::shared::text::to_entity;
 use quick_xml::escape::unescape;
@@ -277,6 +278,7 @@ fn handle_start<T: BufRead>(
         actual_parent.append_child(new_node)?
     };
 
+    check_attribute_spaces(ev.attributes_raw())?;
     for attribute in ev.attributes() {
         let attribute = attribute.map_err(quick_xml::Error::from)?;
         let value = reader.decoder().decode(&attribute.value)?;
@@ -381,12 +383,37 @@ fn is_space(c: char) -> bool {
     matches!(c, '\u{20}' | '\u{9}' | '\u{D}' | '\u{A}')
 }
 
+//
+// There has to be white space between one attribute and the next, quick-xml does not require it.
+//
+fn check_attribute_spaces(attributes: &[u8]) -> Result<()> {
+    let mut quote = None;
+    let mut closed = false;
+    for c in attributes.iter().map(|c| *c as char) {
+        if closed && !is_space(c) {
+            error!("missing white space after an attribute value");
+            return Error::Malformed.into();
+        }
+        closed = quote == Some(c);
+        if closed {
+            quote = None;
+        } else if quote.is_none() && (c == XML_ESC_APOS_CHAR || c == XML_ESC_QUOT_CHAR) {
+            quote = Some(c);
+        }
+    }
+    Ok(())
+}
+
 //
 // White space is normalized before references are replaced. The characters that result from references
 // are not, and neither are they to be taken for white space, or references, again when the value is read
 // from the attribute.
 //
 fn make_attribute_value(value: &str) -> Result<String> {
+    if value.contains(XML_ESC_LT_CHAR) {
+        error!("an attribute value cannot contain '<'");
+        return Error::InvalidCharacter.into();
+    }
     let value = value.replace("\u{0D}\u{0A}", " ").replace(is_space, " ");
     let value = unescape(&value).map_err(quick_xml::Error::from)?;
     let mut result = String::with_capacity(value.len());
@@ -425,6 +452,7 @@ fn make_cdata<T: BufRead>(reader: &mut Reader<T>, ev: BytesCData<'_>) -> Result<
 /// flag, in that order.
 ///
 fn make_decl<T: BufRead>(reader: &mut Reader<T>, ev: BytesDecl<'_>) -> Result<XmlDecl> {
+    check_attribute_spaces(&ev)?;
     let decoder = reader.decoder();
     let content = decoder.decode(&ev)?;
     let mut version = None;
-- 
2.43.0


From faa56b27a1e38ae98f917d3d3fa26df603002979 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:24 +0000
Subject: [PATCH 31/43] fix: the parser rejects characters, and references to
 them, that XML does not allow

---
 src/parser/mod.rs  | 84 +++++++++++++++++++++++++++++-----------------
 src/shared/text.rs |  4 +--
 2 files changed, 56 insertions(+), 32 deletions(-)

diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index ec30e20..5a17aea 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -19,17 +19,18 @@ assert!(dom.is_ok());
 */
 
 use crate::level2::convert::{as_document, as_document_mut};
+use crate::level2::ext::convert::as_document_decl;
 use crate::level2::ext::decl::is_encoding;
 use crate::level2::ext::{XmlDecl, XmlVersion};
 use crate::level2::node_impl::Extension;
 use crate::level2::*;
 use crate::shared::error::Error as DOMError;
 use crate::shared::syntax::{
-    XML_DECL_ENCODING, XML_DECL_STANDALONE, XML_DECL_STANDALONE_NO, XML_DECL_STANDALONE_YES,
-    XML_DECL_VERSION, XML_ESC_AMP_CHAR, XML_ESC_APOS_CHAR, XML_ESC_LT_CHAR, XML_ESC_QUOT_CHAR,
-    XML_PI_RESERVED,
+    XML_CDATA_END, XML_DECL_ENCODING, XML_DECL_STANDALONE, XML_DECL_STANDALONE_NO,
+    XML_DECL_STANDALONE_YES, XML_DECL_VERSION, XML_ESC_AMP_CHAR, XML_ESC_APOS_CHAR,
+    XML_ESC_LT_CHAR, XML_ESC_QUOT_CHAR, XML_PI_RESERVED,
 };
-use crate::shared::text::to_entity;
+use crate::shared::text::{is_xml_10_char, is_xml_11_char, to_entity};
 use quick_xml::escape::unescape;
 use quick_xml::events::attributes::Attributes;
 use quick_xml::events::{BytesCData, BytesDecl, BytesEnd, BytesPI, BytesStart, BytesText, Event};
@@ -281,8 +282,8 @@ fn handle_start<T: BufRead>(
     check_attribute_spaces(ev.attributes_raw())?;
     for attribute in ev.attributes() {
         let attribute = attribute.map_err(quick_xml::Error::from)?;
-        let value = reader.decoder().decode(&attribute.value)?;
-        let value = make_attribute_value(&value)?;
+        let value = make_content(reader, &attribute.value)?;
+        let value = make_attribute_value(document, &value)?;
         let name = reader.decoder().decode(attribute.key.into_inner())?;
         let attribute_node = document.create_attribute_with(&name, &value)?;
         let _safe_to_ignore = element.set_attribute_node(attribute_node)?;
@@ -314,7 +315,7 @@ fn handle_comment<T: BufRead>(
     //
     // References are not recognized in a comment.
     //
-    let text = fold_line_ends(&reader.decoder().decode(&ev)?);
+    let text = make_content(reader, &ev)?;
     let new_node = mut_document.create_comment(&text);
     let actual_parent = match parent_node {
         None => document,
@@ -329,8 +330,9 @@ fn handle_text<T: BufRead>(
     parent_node: Option<&mut RefNode>,
     ev: BytesText<'_>,
 ) -> Result<RefNode> {
+    let text = make_content(reader, &ev)?;
+    let text = make_text(document, &text)?;
     let mut_document = as_document_mut(document).unwrap();
-    let text = make_text(reader, ev)?;
     let new_node = mut_document.create_text_node(&text);
     let actual_parent = match parent_node {
         None => document,
@@ -346,8 +348,8 @@ fn handle_cdata<T: BufRead>(
     ev: BytesCData<'_>,
 ) -> Result<RefNode> {
     let mut_document = as_document_mut(document).unwrap();
-    let text = make_cdata(reader, ev)?;
-    let new_node = mut_document.create_cdata_section(text.as_ref())?;
+    let text = make_content(reader, &ev)?;
+    let new_node = mut_document.create_cdata_section(&text)?;
     let actual_parent = match parent_node {
         None => document,
         Some(actual) => actual,
@@ -365,9 +367,8 @@ fn handle_pi<T: BufRead>(
     //
     // References are not recognized in a processing instruction.
     //
-    let decoder = reader.decoder();
-    let target = decoder.decode(ev.target())?;
-    let data = fold_line_ends(&decoder.decode(ev.content())?);
+    let target = reader.decoder().decode(ev.target())?;
+    let data = make_content(reader, ev.content())?;
     let data = Some(data.trim_start_matches(is_space)).filter(|data| !data.is_empty());
     let new_node = mut_document.create_processing_instruction(&target, data)?;
     let actual_parent = match parent_node {
@@ -409,13 +410,12 @@ fn check_attribute_spaces(attributes: &[u8]) -> Result<()> {
 // are not, and neither are they to be taken for white space, or references, again when the value is read
 // from the attribute.
 //
-fn make_attribute_value(value: &str) -> Result<String> {
+fn make_attribute_value(document: &RefNode, value: &str) -> Result<String> {
     if value.contains(XML_ESC_LT_CHAR) {
         error!("an attribute value cannot contain '<'");
         return Error::InvalidCharacter.into();
     }
-    let value = value.replace("\u{0D}\u{0A}", " ").replace(is_space, " ");
-    let value = unescape(&value).map_err(quick_xml::Error::from)?;
+    let value = replace_references(document, &value.replace(is_space, " "))?;
     let mut result = String::with_capacity(value.len());
     for c in value.chars() {
         if c == XML_ESC_AMP_CHAR || (c != ' ' && c.is_whitespace()) {
@@ -427,24 +427,48 @@ fn make_attribute_value(value: &str) -> Result<String> {
     Ok(result)
 }
 
-//
-// Line ends are folded before references are replaced, `&#13;` stands for itself.
-//
-fn fold_line_ends(text: &str) -> String {
-    text.replace("\u{0D}\u{0A}", "\u{0A}")
-        .replace('\u{0D}', "\u{0A}")
+fn make_text(document: &RefNode, text: &str) -> Result<String> {
+    if text.contains(XML_CDATA_END) {
+        error!("text cannot contain ']]>'");
+        return Error::Malformed.into();
+    }
+    replace_references(document, text)
 }
 
-fn make_text<T: BufRead>(reader: &mut Reader<T>, ev: BytesText<'_>) -> Result<String> {
-    let text = fold_line_ends(&reader.decoder().decode(&ev)?);
-    let text = unescape(&text).map_err(quick_xml::Error::from)?;
-    Ok(text.to_string())
+//
+// The characters between markup, these have to be ones that XML allows. Line ends are folded here, before
+// references are replaced, `&#13;` stands for itself.
+//
+fn make_content<T: BufRead>(reader: &Reader<T>, content: &[u8]) -> Result<String> {
+    let content = reader.decoder().decode(content)?;
+    if !content.chars().all(is_xml_10_char) {
+        error!("content has a character that is not allowed");
+        return Error::InvalidCharacter.into();
+    }
+    Ok(content
+        .replace("\u{0D}\u{0A}", "\u{0A}")
+        .replace('\u{0D}', "\u{0A}"))
 }
 
-fn make_cdata<T: BufRead>(reader: &mut Reader<T>, ev: BytesCData<'_>) -> Result<String> {
-    let cdata_bytes = ev.into_inner();
-    let decoded_string = reader.decoder().decode(cdata_bytes.as_ref())?;
-    Ok(fold_line_ends(&decoded_string))
+//
+// XML 1.1 allows references to characters that XML 1.0 does not.
+//
+fn replace_references(document: &RefNode, content: &str) -> Result<String> {
+    let content = unescape(content).map_err(quick_xml::Error::from)?;
+    let is_xml_11 = matches!(
+        as_document_decl(document)?.xml_declaration(),
+        Some(declaration) if declaration.version() == XmlVersion::V11
+    );
+    let is_allowed = if is_xml_11 {
+        is_xml_11_char
+    } else {
+        is_xml_10_char
+    };
+    if !content.chars().all(is_allowed) {
+        error!("content has a reference to a character that is not allowed");
+        return Error::InvalidCharacter.into();
+    }
+    Ok(content.to_string())
 }
 
 ///
diff --git a/src/shared/text.rs b/src/shared/text.rs
index d4c293a..63581f8 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -325,7 +325,7 @@ pub(crate) fn is_xml_10_char(c: char) -> bool {
         || c == '\u{000D}'
         || ('\u{0020}'..='\u{D7FF}').contains(&c)
         || ('\u{E000}'..='\u{FFFD}').contains(&c)
-        || ('\u{10000}'..='\u{10FFF}').contains(&c)
+        || ('\u{10000}'..='\u{10FFFF}').contains(&c)
 }
 
 #[allow(dead_code)]
@@ -353,7 +353,7 @@ pub(crate) fn is_xml_11_char(c: char) -> bool {
     //
     ('\u{0001}'..='\u{D7FF}').contains(&c)
         || ('\u{E000}'..='\u{FFFD}').contains(&c)
-        || ('\u{10000}'..='\u{10FFF}').contains(&c)
+        || ('\u{10000}'..='\u{10FFFF}').contains(&c)
 }
 
 ///
-- 
2.43.0


From d65f41e1bfc708bbcfe4c0e5b3f79223e4cd2b5f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:04 +0000
Subject: [PATCH 32/43] fix: parsing, and releasing, a deeply nested document
 does not overflow the stack

---
 src/level2/node_impl.rs   | 17 +++++++++++++++++
 src/level2/trait_impls.rs | 15 +++++++++++++++
 src/parser/mod.rs         | 15 ++++++++++-----
 3 files changed, 42 insertions(+), 5 deletions(-)

diff --git a/src/level2/node_impl.rs b/src/level2/node_impl.rs
index 1346e7a..231571b 100644
--- a/src/level2/node_impl.rs
+++ b/src/level2/node_impl.rs
@@ -6,6 +6,7 @@ use crate::shared::name::Name;
 use crate::shared::rc_cell::{RcRefCell, WeakRefCell};
 use std::collections::HashMap;
 use std::fmt::{Debug, Formatter};
+use std::rc::Rc;
 
 // ------------------------------------------------------------------------------------------------
 // Public Types
@@ -100,6 +101,22 @@ impl Debug for &'static dyn DOMImplementation<NodeRef = RefNode> {
 
 // ------------------------------------------------------------------------------------------------
 
+impl Drop for NodeImpl {
+    ///
+    /// Release the tree below this node without recursion, it may be deeper than would be safe.
+    ///
+    fn drop(&mut self) {
+        let mut released = std::mem::take(&mut self.i_child_nodes);
+        while let Some(node) = released.pop() {
+            if Rc::strong_count(node.as_inner()) == 1 {
+                released.append(&mut node.borrow_mut().i_child_nodes);
+            }
+        }
+    }
+}
+
+// ------------------------------------------------------------------------------------------------
+
 impl NodeImpl {
     pub(crate) fn new_element(owner_document: WeakRefNode, name: Name) -> Self {
         Self {
diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 05f8d69..8c57d9b 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1454,6 +1454,9 @@ fn check_same_document(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
 // owner element of an attribute is considered here to be its parent.
 //
 fn check_not_ancestor(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
+    if self_node != new_child && is_leaf(new_child) {
+        return Ok(());
+    }
     let mut current = Some(self_node.clone());
     while let Some(node) = current {
         if &node == new_child {
@@ -1469,6 +1472,18 @@ fn check_not_ancestor(self_node: &RefNode, new_child: &RefNode) -> Result<()> {
     Ok(())
 }
 
+//
+// Nothing but text is below this node, in the tree or as an attribute.
+//
+fn is_leaf(node: &RefNode) -> bool {
+    let ref_node = node.borrow();
+    ref_node.i_child_nodes.iter().all(is_text)
+        && match &ref_node.i_extension {
+            Extension::Element { i_attributes, .. } => i_attributes.is_empty(),
+            _ => true,
+        }
+}
+
 //
 // From [https://www.w3.org/TR/DOM-Level-2-Core/core.html#ID-1590626202]
 //
diff --git a/src/parser/mod.rs b/src/parser/mod.rs
index 5a17aea..2a6d684 100644
--- a/src/parser/mod.rs
+++ b/src/parser/mod.rs
@@ -221,20 +221,24 @@ fn element<T: BufRead>(
     reader: &mut Reader<T>,
     event_buffer: &mut Vec<u8>,
     document: &mut RefNode,
-    parent_element: &mut RefNode,
+    root_element: &mut RefNode,
 ) -> Result<RefNode> {
-    loop {
+    //
+    // The elements that are open; elements may nest deeper than it would be safe to recurse.
+    //
+    let mut open_elements = vec![root_element.clone()];
+    while let Some(parent_element) = open_elements.last_mut() {
         match reader.read_event_into(event_buffer) {
             Ok(Event::Start(ev)) => {
-                let mut new_element = handle_start(reader, document, Some(parent_element), ev)?;
-                let _safe_to_ignore = element(reader, event_buffer, document, &mut new_element)?;
+                let new_element = handle_start(reader, document, Some(parent_element), ev)?;
+                open_elements.push(new_element);
             }
             Ok(Event::Empty(ev)) => {
                 let _safe_to_ignore = handle_start(reader, document, Some(parent_element), ev)?;
             }
             Ok(Event::End(ev)) => {
                 let _safe_to_ignore = handle_end(reader, document, Some(parent_element), ev)?;
-                return Ok(parent_element.clone());
+                let _safe_to_ignore = open_elements.pop();
             }
             Ok(Event::Comment(ev)) => {
                 let _safe_to_ignore = handle_comment(reader, document, Some(parent_element), ev)?;
@@ -258,6 +262,7 @@ fn element<T: BufRead>(
             }
         }
     }
+    Ok(root_element.clone())
 }
 
 // ------------------------------------------------------------------------------------------------
-- 
2.43.0


From 9e42627be3dab72703370eddd2207d4e1ab64777 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:57 +0000
Subject: [PATCH 33/43] fix: identifiers and entity values with quotes in them
 are printed so that they can be read back

---
 default_6602352238263458904_0_15513.profraw | Bin 0 -> 216440 bytes
 src/shared/display.rs                       |  22 ++++++++++++--------
 src/shared/text.rs                          |  17 +++++++++++++++
 3 files changed, 30 insertions(+), 9 deletions(-)
 create mode 100644 default_6602352238263458904_0_15513.profraw

diff --git a/default_6602352238263458904_0_15513.profraw b/default_6602352238263458904_0_15513.profraw
new file mode 100644
index 0000000000000000000000000000000000000000..a67ad503bff1b70e49c7e7ef86ae246b32dcf9c6
GIT binary patch
literal 216440
zcmbT<cQ}{-|2KXa8QIw)Lbg;^$;`?QNk-YELLws}lv!kFXOms_UYSLaUD>lFiI<h%
z=en-%`Mr+c^Lt#!@jRaX@z%J#ACLRv`8?0_bvnIz;$rLM;(Yh;7~cQ+;P|i4---Y0
zKmO}eJI(+9YuK+AgZ|H-oVtJbzduMQ6%6+M4iCkWvfdE*{!az}zkZ4CzdjRmo4qpp
z_I6UuUsNejAnxXD=0@!Q`mMg(riPD~-k3Oj?5(+D^CSiH|Ld>)KR;nU_6Nv!#729+
zK01*z(nNo5z(_gozv{$(|Nr&*2=E*1|G4RSHM5v8#~#ul0G!UK$+@5!Az{psf^@)o
z^22t=%(Pg=FbC)SfAR<ZcmLzdqrk89Nd1-^wO8EU_iFm+PPd^m1?hk}6I}eKy_kjH
znAq+7SAwIOI}g$U>pAVJ&0U%;8jU%TkPeuSU-pGYLr496%+ZB(h=6>4mWVyy@KV{v
z98pLI%;%LN!wWJ&^Bl~<Il;|~6sV{C>f3b3qmxgueF5u$>#%E|>YI1{Tc4-iU#@48
z1ZH<Z)<X!?b3B%7<(mASHntAaAsw)<W#$Rq%WX2rtM;r}PZkwVz&haE#}@m4&r(i!
zQQ0_7+MiZ_VGdajIIjmYO*Zr8nzS7O3sxr&T|@XF9k3pqWzya2f{wn}{#tT`n>$#~
z!_y<l|Bkf}l@paL-sn=GEQNHy{Z*V9Ke?KcweiAj=-_LvWOf3i1J=`DU$@oAMzNn{
zX8tDKf!x;|(gE}7zc@}Bh0iyK?F$Y_2kc8k`jvNRzMZ^+%ZKw0>T=N}kPbPpo|6l#
z;+MM1QfTuT+?>Dvcnw<*xWDXlvmG`HjGrBwUe98Ab??FYJ-E4_1nP+!U0plcCsNfo
zxZh3JyVIQx*%w%kiLmC@g4mrEPm0$MthW1pIzu`lKs_X8F6R`-s5G#g6A<@>6q!X0
zi8q%niEd2_&2g6ZMvx8#P*1IFf|3N^Te)SbI+x#R`gc7b9dJE6_xaC$AyW$23<wH0
zwkzY3hjhU8{4dzrlxgCWgLro^-4!k4aXdtaRe>t2C|==tNmXZ1$U@U_GvvI$deYxz
z-)>Q|cEr}RAEINB=KELG$&M$bx<+kxt*lBO(gBb2oHrN`+y83dn(PaM&r$!o4C{dN
zikkO4HJ9A?GMeVXP(jzD9@za3<};;KwfkwNn&RVJ!3pZ|x3{|>_bGTDq%A)g8!~lw
zL3AM8()L`}sdPvOtmo+yZtg3-0?wFYj_7E7{d3MKOs*MoI1rs8GO>fx+4Y><(~f5P
zlr@@Dcj1m>U|%gYLZ=?LME4BRi`ZBXa#y4yI(GUI^f4s`jhc#Xwf1rW*Ub?f$=H!u
zy8||MY`=3LI#GKB8_!C=>e@R>i|=kZf0(+1me0#0zu(63HY^IVNf??xDG^SGbij2u
zde74K_Wfb&U&bSE%X-95c|bbg{_4G}D?R)uumM{?@{kTVcivlHGA}l19KU_Wv-VZ%
ziY6YSvs+a?pf*qb6sxD%0WD`LZ+Fr(rN4PtJ${JJ>JZKH&k)ToSUvKH&YiEP3smd6
zS+IKW5S^ow9sxS$CsGY@8!Ct0^<>Sr(elw>_c2J_+2Fw(KSYOYUB_hd`O(vuBai4D
zqh}*6O3FIK96Us4Y*77MDTmk@%xShq%g4)mCv3GnU<z~m5S@3$yu_02Q8Sn$kLaWd
z++Zrd&);}U+&+7s>@g7@qBA%DqR^_uvlnxk?a=bsq7(Tx+12IqRk!a|wH`6EAELv{
zN!%nAIctMC@`%p2R`rB4-~Aq94j!VztRz8K7pAd-InB0c`JC}oTH~^y{f0Syh|Z<#
zbsziih9u09M|AXJP9D(S={iPpgn)*Q+Ia*I(gDvG9Y%V7d*|}3F{jH0E+5dLCp&OU
z<aAxdoJd6H1%Y|LTdH+D<`^M5xny>k>Fx$kF^2=uQE*7Lwil8ZI@bEZa`(o^*(GbZ
ze8BUm=?{lswmg<-%*jJ^R9pqVW=GA+bI169*X!@Eu}5_D85lbs(lhj84j-a(>*-nc
zFS0Bpn6qSsme11U$JE=G-~Yv&JVb|rk->hPWqKZS>=B)izojK4)J&n6!-wb)2)cjd
zaUncgA=Kc{>A2XsWQmqf)>i1Ee2m;#as8KW9=jPQ^AMd2j6&|p_+F;YS08foKDAG=
zhjhUE5)@)wUuZ5J>BAf;NC!M_n9&G)GbpDe#~eIFhfMg~cZ#cjiZG|k0xoCpe$>$l
z#W3d!@)7+9&g+?7YE-3=4!GathLuj!Qgpegby=rfJbGy44Cw&h-oc|Zh@c7U^{6xZ
zEEVV!z*Auk>45X<8;$lTGjt7e^vPPye8osBis)Rr+k8<`ajwdKh)!?w<-{Q#qyyfs
zd$kpM#&^=fRYkkmgk0HZfC<te1MVX=kUbYw7a1x$8FXjmRCNIr2c!eO{t9Mht=OL|
zA;H!U&Kz$2@BsA$aV4JPZBdWJ?jwyt)&s7eg1}{3oy>zj*z3v!NC)hzQ8b4q?g*_X
z=D@B)(4isY3!#2Y(}y`~i1kP(xW)4{*k1Dd#HCDb`Na!%USK{wRnw-;BzN*8CROUC
zGkRL4Am;@hf6Dua_Llhg3{6<3i<l-w%JUE%O^vkA9^9Wizr4yJksGUPaE5fieY&Uj
z6Guhxz2=chR(E2bZ;U*o1NL?N#E3u1$O``U2OpYWc^O6|kPevhOS(_mkzu`xnA3F&
zZeM^7&V=p0sJP<S2G`JtvG;a;!H7<lUCrn77ZpnQU!AOdloYw9hUjc*k&feNZ@)jT
z#=4MU=W9uV=v-|a6?ztZG6{3KZldKQ#;dg~LfqPFIGstp?s7pX7|}W4625nxo_z&#
z)DRs)+ldk$cW0qV=g0uYWc>&dM5i!f`+SjLeh21snW5$5yl1-?zHU}_stWIhyNqsa
zFr)+Si`ECR!MK~&skk=t)t_d8>bi(dV1MFq+@0$U@m3?JX>%B7nIIi-UsMU+A!J%o
zkD+niF!;W`**a>9mJiDa%>?=L4Ar`?Ojo62Uj`;XI$%E4G;wa)oQr~bV#!`{TUwRo
zkPg^anx35Z5qzWHi+^nO)QIM-IZ&PVKg*P?uB@ziGse;J;T)$-;PL_cGSf;Lpzn#J
z$Lh(0bilsE`{tc<_yUcwob4eUu%6bxy3eGtYroxyaCp|(dwEb4(gDvGr;O9P?uQ*0
zpJ$~olo`r5!Gm<b>r9Q_*Ds=ur)}t-sFlrqcXoN*7%pe<xeGmqM}qeSUsnYYU6u$i
z?^zgtbilrbCx<J`*Mm~A<9s@#1Lk~hn`u~=TH6u(et|ut1J3={w&U!mX=Wzo@F6<q
z#S(HpxIA9F^z!tb@P|GnOE=(h2J6|L>_1|@q#w(8M_p{y^2JUbqO-3VP{`SwVOtg|
zPG@2<%WaS7<dqVVu8_3iFozG(N#~?G=~Zlydy2Brelo-0@{$o+K2tND2Bcpek74KK
zJVeLh<BhhLVLT62&pLgkxpQ{W9?}8V^ApQV(@2V`{ytVV&UyS4E-6R{T+a$QiC&M`
zW`5i<NYNchJm-W5>459Uo3P#(Z*$Kgb}7KqQ<Iyo`8rz8hPl7j{HOP~uzLIu9TM(a
z?;RK>`LTNB5gkgc*DnGB$42bR+3u>#H>l$wI)6sg*>`7OT3}AIAzD5;K^Juen!FWc
zmvU*pJgpq@gLJ^TpG>m3brARI<bPk+K|0{vS@VR{nW8T;Vh#zSQ`SRruY_qF|G%&6
zuA${K);#HEYcwy4Il+j|8Jf?o^_$J_er+e!93^Z>Q$uvV?X<Pazr8n)IV6aVnC8(9
zT8{9bu6J1~c9$wNyA06sStN?@j6ag_6?1|Sos8JR*5}sLt#xy=mW!>vj%tX`4F#M>
zl0<z8=8zyd*EVgaTO@hHO4n=|d0p}5y7b}l0gtQJc8|=w3IZNsP6DE1BimQ@k3B&X
zbL<fvs$bcCD(T&~F-Ho~St#gaFe7ZPiv3e5eIYD@j|9>I_xt-=S$9!Cf~m$_CDLBr
znv-36a5;lcL|x*(wQS=9uFgws?^|XMf*~F7IL1q$KKryU)85SF!==zUx=~$72dt+`
z{>$oe11$+_#4(~4O*~_2M8}mnDtzU|EwxRSgPU`jfnoz!(ek;i>Ow1`^-JvcD}n2;
zMArf%5uIpu`|Ky8Zu6L<i|AZyvWOCl+vX%XJodIoN?nZ_(HR`~JzSFuxsBB`po^AI
z*&vw`zM)Gx=0qYozgKg=eG?3R=6Ot&ynR?AMHkV@3rw)6zRQP`8V_NfJ-B&=8qqnV
zomld$4*8lndhYo<XYHZ^9khI!FB97Lr6{XoP9&nUq#H$iHk{2@-1C{(@^$xOT}TJq
zr~MUngtuk5Pvi?~<EvIiBr`!e;661-kCG}d{@q4)8s{|FdeL!I8!jL4`NN}e+$vHx
zSvS<Ab~hG>Kjp$YU|)A1v(4XP(|(IRhn5am57?JwqjW^?+vl?r0>`iVS?ceYBRa7~
z;%ubP9{k1X;XrhH`dv5$J|Att>Y37l%Ngveu%x@8Q*gx@t0x`N;rOj8Oy9${kJV$2
z=n(%c{w68)^cMEIn*-62I>-9bt+eep=1gg#<x{Ri=lhZCEEVRYBRaG8qF=J3m^QY!
zj_gHK{Jv<8=;UhPG^V)d=rD%^(Xkubu3NTn7_Ck$yX5nd6mLocEuSHKbLtK=o9R*d
zWA9bn25Zw19s7n~;X7F}qY|%do?rNRk<uK|>8sY8Ce$vC!=Cr!Ky=oJ4Rv%#F0x?G
zlsZ~I4U9=@dM=|Au}yR%*Ui*?(-EEI@~ZG_w|Ex#e|}*TPJU8q4(Wi$!}mgWM>9!3
zvX7Dc%#-J8nc{<V!25n~6qOtiexuCpPj8ly2yp!*fpoy*k2l2tZ|4ifxaeO*<~=u<
zjk>O&<vdRD@vXc^9Cy+^_TO^SdY-|M4wz5=>OBSGlywS=<TD2!8EUWSLOS5<l+fOG
z_LA97kCzX$viWeaKR6&AFrUG10(bqi>GRJJB#IDFIT=o=q2;3%J<~27>H2Y6q}EH^
zraLwr(OHPwIX<nD^L>`poZ%7YyLod+2h916bep%wXIA^7+&3Hp_$_Do5FNr0oCbZC
zP!G1A*Hz*20p~TwqyNnp*BWoI=7TTOM9|U<>45V(_LYJ?_WNj;x@qlGRoUCteu&O5
zIWd>tZb!BBe-LXKyN345BRX!}&%H{McIB8!MQmmFCNJPYI^et#cbpem?-*GTI=!5_
zGtIfur2>~T`25D1Jge|#mSZza7JGensx;mXKsw;O%qO3pzCoYm`>$$4kTs(-Jsr`x
zOj+;6@#5q$8HGour0y41IYT<&+(U-*9QY|%zuz)F(5s4cNfw24NPy=_h&hfg@7mbR
zW5-oKNC&JZp@ZYqK`Tcac3fRjhMN~S_bTgS{5NwGK6AMGP>{czswzcvw0rCxZp0Y>
zmb<GkzBBHd=K<+}eaSBA{=IPX;wI)uAv(L>PA?ZJaQe@M#rh83S(xIK;PL^VlWAj6
z^S>C&T#P-xF#zd+eK}5yiZ6X)zKlJ05eeyl_0Xs?{FI+QVt_q&VGrqm^)OMaEhY1$
z_l~li*2oX|Ezbw(fa_Vaqf_SZ)95(t`k4dL0qZHXPbQw=$d&GFkyfZQ`9(Q(8E#(S
zdN!n#2|i`jUx7J!h>op;<5reg;djh&Ms#i!MvhiT`Vk3};YNg`|Ab3HI$%C!YJQr#
zyt^})gHwdd2XsD|2REf&cKMDu)rgJ)9fN2Kb!|T8cpy5NvFV=7Lis2BJ<aiUuE?55
zAv*bfT<t?f7Ot3sQ$WjyeJU&U?JXiz%&A6n{)G@}na1vlV2%f(bM%zcgZ$~6yx4Pk
zQjiXK+*sP^y7<lDdrRI+KCAFD<{WBB2V6g=<AlfLDOQBB*G&WRXgLduI4)*<+N;KX
z-YOE&iTP{1^lv7w$G|-GVzOJ%HC;#tyxvefJ{g*R_uU!yIZ5#wAMlTGKssPPThe!8
zj|?w3Yl=xm{${Ueo05ae2Rx3^ym+wj#NLc#yji$D#Xk3H9;5@-gR7Cv###0R&fiR(
zacMvG$R5%G^J%NKd()G-*hzVAL$%vu+C~b}p$4vheu#ARta%z1`sk6qp{ZuQ>I~_C
z&vg$38(RrPj5lHV7(qJVeaO0Cwf*qTR!Qvq1?zx0AK<LEq6AfjvHKfLkoADh?kDo&
zNylv8W6r4T;s5>sV*DRpf)4p_xnPoQ?gh+AKy)nCe)SsZ3H`$yBSZ(M_5HE@VoxV_
z++ad<I=14J^$H&yV8@M78MJ&}-lr~BAFtuW>PbL!J|xwWw9F1%#_BObbmm9=-Yh(p
zzn|2t89sLZqyrP8Q^{6xwV>Tj5OYQ^q2*JkX2igCX@pBAZNy+=H{)UgqGQsKF4jG}
zLx(v=h>l>io#Blr-Yv{wLUfF!s0=OjdVgZhs5DwW84R@pD@(G!T_c}TzLoaZNI-OE
zA3qH~zhIGtIYx+%tIU~;OP|^mFoy}zxg$WVM9-b5jX9$i(ek-Ty%B%o8jjz^Xi!(d
zPvB_+qT}IE@z<l_r55HGAv%+ri9|zed?T2{gy`7M&VGt&8x6sn(F<t#JYh;;EiZnz
zi8%>~j%YrSS=$|*YnWq%=-kqOm8YoV>y9~0h|bK^ks%Al3-2&zR0=I0p$Orsj~YZC
zn3I6$*mN%~T5UF{VvZ4_)5e~3tW{fi9dnovod}<I|MKEa`C-neBw9X=Oa!W7Bd@nG
zCjrrE9W%P0tei8BIYx+1@u?5DKjw<+4izz_#%0=EW<qqX+$uVo)1@@}!<1}HM7dRM
zR01uZW4w&l+-t_Hl<9ezRpoo@5)hpNy`UednRSkGTjncFobIQL5S?62vHfg!+Xtnh
zwf`0#I@vHGI`{KN?qo>hwP4PuI9fgrvbWX?Y4LQZE));9Kh76PKy>^93mGY^3T&OH
z<i_#MRE>-foda53cljZfu-o3T$`gD`R7{A@B;n6NabAZ3%o!C!%V#_E{;cQo#+e>^
zx!P%Jea{3$hluakSxPoM4*g2*`8bk$|BMiwoi}f$7)>&Iym)WUGUQ~@FhM%t_w`Ct
zEJL`LUi)FMcW~#?@}UvVix_eD2*jLfMCXIDzQKkUi5%v5AUeN!1SWR-;<7PE3ejPv
za+SO0LB@tTxN~Uv<Ow~G-)-d%cP*deSzl&vsz!8H61;Z2dWLP(#c#)Snph@zAUgE!
z=i?Nkoy6|FPIuzlTw{|$blkshYX-Sr6@K(Cqh{*&Vm<CGT0Y!oDz2mu4`lF)=Ds^e
z+`V6o=+qo2hi@l_ti4tb+}>~{_3}V;@&lM&CpUD{#Z$2yu}kg!A%*DZ*ck38g%;nf
zuqJNUiz(K^iK6AxyCwJaj54WHRX{|~KHsgY)rd~)0C#ELnd{H9$=ZfyiZkgw5FN|%
z&$qVR9)14L`zY2uVD1Z(f^@+9S{%}?Rheb89CyYDF8SA87sZ2g!227N3|?Kgd;X9e
zbUtw}XMN4ld<HG&^^;~FglCq-=h*tTuLzQ6_#rypR&xKik8xN2IQ4s+D(ddAJfs8W
z^Cem3FY)E|4$G(%hW>uyD<qH(n9mnoa+a^}7mZw;qS}g#FLif`pyku*=%900Ay{>I
zk}m9FQfOi@qVrk6$R?=CEYHv1kY!f-Eu9*oGk43Ofc0SGm=g0sa}aNVC<&r7?*4$k
zs;>Xs$D`h4DlO{|yM)p5aS+!1re_wqmUF3m_i9jtcrc^`&Yhy6OuWOePSP&>m+3lT
zmAo#b1I~Sqx`7~$RnX6y;+go$ZhaRuq9abz{L8mo-r?D>bq`a;DEWX8T0X1Kd&#vm
zd;$n5pBXWQgzQElI%Z|hRF9}KdqvY3)jT^^SE`HX+>_*z4b?Ky=3u1yG19Y~NDb+L
z^I{KfqkH>R$v$<@D`83G_~}tWw0x-8UBAERGPZkc5TT*8aPLC`qSG$1=wwtAE{0tn
z8X-EbT$FcT;(bU-$0M`mHL<W_LUeB6n`eLCdpw`?Y2)>xOtiqL09-y`&KnDlwD%<n
zsfB$yJi<CQBGVxqa9_L_A{<|1$@!V|q~wX>J?mj}M2Cat9FEW8?QOa$gL5NY-_CO&
zI@*bLH;sP${GQ3EAMi<7wSS5qE+4S3f{gPYz51uhRX*^UPcS`hOow#9oCOGbS<Y2^
zJ72ZAwOvV>6KxOafc5+<|J>tU<h8JoMrfH?A7sIY=!9<P)(y5j=21x=3_8@YRbApk
z%ZHkc<ua*T?d!YGpXw8{oV}li=$scEuaKGyzUuL0vbDaii_jj@0dr>Ey*=xnZlv>i
zP=|PxcWXx!(gAZWGJThKU54OHgK(E*)Uc$%Ixk#4U_G0T@yWIBx6il5+}^c4HmXq#
z>45d@y1CM`5`N^h`?N4r`0GNu2cp9@#4xnbaqfDP4{i5GHYKMNqBC1HFk?;NGWOA&
zuE=&nE);hfEuS-wGt;?Oy$>Ahj=z{JyyDvo>45nNBwQGDW?}o!>u%wyCrUlH{ScjO
zHhp|gsc^pqLe3Z!`mr<ekPi6$+)!ik+dFy#(;))>I%!%BbJUOy*jN6*abn7+vsBl!
zTnm;?7xE48z~u}&|JtLYiDWYs`s(Gk(=G&OMIt(-^!5)<n%Mi#j1q>Z;ZhuQAsujE
zXq5)IT*tS3v1TYI&2r*$G!vu)_Vs>A+HtD>G-DIz?up3pKO&>tX!(p$UkDqsOlzt9
zM6>ylU#2es(dqrt7?{&idG<`^CF!@{YMvNDI$%C2y;ZTF3r;(VA0OWG9@~D-0qKDG
zeE;#J=mY;qU&oPz?!R_%8B<(n`5fIyyjBy-aYsK*JRiS0bSNFs=@K|w|4*)La3elr
zR`W>(r8%Sn=JO@iQ|dkG(43b`(KCw2hoyXw4wz5w>7nBu6S9@IX3u&=R&%(QPNC(~
zm#Zj9Sth0YAk#I_NGZoK577x`?tgF3pU7X$(f5&Cc<Q7*qLbx5b7YKmWt9JyPZq`3
zyZU^Hj-Br1b(;O^--mKr>`z3B*q1ob@_Ff^FEYYDQ$294Y4^!1x|%#h$4%7BQPJeX
zT%kVBxaec*M|(skrbcCsdN}l7=E~8ZOg+KZ`5+x|9SV|+&OS)bq&_7?#M!~3<-N{<
zmQUA!$JjB$yu5w-<4U$Bq%)<6&Nk1#uG>0J_<K{-9&NHYPn{7RTh>v}mLb~u#Gcds
zD)mQLMG+mtE9&f*N%`|G={iJ^-p+r$eiAMpFz3(I|5C5b{=P|NPT4p?ig&dd(gF8-
z=KUAJ11#foT><a$y>#_AJrJEJ_XvS4`Fxe6AFPBw31|eQ5S=owlbjj?n=Xu%^}pNn
zlVox1hyVNIe>{K$`~uk5F1J;D%Te~lt{83E2<}L)YD9<SwGs7=qV-Dg^8^{mtvrez
zkPbL6<;PllWkrpYGv&J8ZSFIB@{kVLS6#M##}ace{uhJ5P0`E#3wVf5P`4os-=)I&
zZ_6<^h#nUAHM7Cx4EFWY;pM{W{S&XOtNYHMvW~3}hIGKb-p5i79x|m|=&e*bqw-OR
zO%2hZGM`AidyKmxxUoqiHXX-D0_lK#t-hmKr7&fV<Q`-XwiYJ)GH?PeAF!_oi@WsQ
z8y)pmzm2GW=C{p?M09R=S<mbXdb>?1CLR%S75CJIbilrnC_<ipr>K=9ayiyU)8WC&
z1nGc%U3R@je#cdO^2N!<`4B5stx;CAeAo#2?V0Lidp@teJ$_5}(xU`O2kZ-P%lAaC
zXQdZM-eZy6pLBoBAsw)<GxsBA8ppGPW!hOw{=_7faUeRv<R@^2Eb|TCbf4~W+x%3R
zVu8yC>?`+)*74_F*Z<+49VBFVBf6dk>41GT&uF-mo%-D|H~N9(!A8%%J)%Pvw<M+<
ztdoA+Kv=ga_d5X}qT@2rx|3$Rym{bpR{o%fCvu4yE+4S31wkd@qb{<qS7K*>4T+kC
z<Uu-M&Wmr8BsBX^dyVtFG!o9`UUG(Xz<P!<raKPuhKjVqKXO-vTrd+wbV6z<6$xs7
zW^}sLgrtlFx~(&z<#P)!yN7Tym5+N9PnLY~M@K271Ljjnt|9PaZ&2c|)9A}43BR8n
zkPes+UC^YXPZCv5Rs+iihQ<eRQi#q=MW(I*q6EE9x$8GGA2yKV7~%2(`_gdRyJP45
z_R)esmBT}S6T)Ul2kdKS$U>ykba>;*1=HiFjq(Tm5S^-!7{^XK|KP1g{Osm0EobB*
z9k8!TEjM`!q5J?b#*>P>sjp2)ARVwTo}tuz-oHosi8_kcQlCC5?_z+<8FXx>jg5&c
z5|txw=M<8hc2EvRbWU^M(5iHJp40tJ%+`WFi%SjC0rO$yVWy3cnJabc_@o_L(S45^
z(gFL@(yWp&3b=f?fMfWpUA~Cr06khh15qXp#lHqa&hT8cQMhF~7zycseU-6a?hEvs
z8L2w8dy&mqXUz!G0sFElHpY*;v&C?*LX`H{+U*MyqI0H<bUGtnBjzmWHGY%c@v>1m
zw0xG2TS>%e8W>!>toF=$LL)r^(gE}NuIs?9=I}ZjFN2;!^3D$mb4UlwN8Kng=x&BV
zCj*CG1hp1b7zd)0?!x|>Jfz-iNRl)9bX~*H)N!<Y>aH&*|GFir{87z;1^;*>PdcOn
z<}<Otu~0ca-qN#`q}+FLtjr$L0rL@ft`z*RS3^-Pk%*$?3O@lKqT{K=A@ED%Q&>q=
zMy}}Z@A6BuaQT3J1$teSl+S;^{%Z1*xC~bTcPXR;_Qfwe6+|)g<zdk2{_k#U*U6m`
zoo>V0zccP$Qt$CzuhIF)X^SE{nMe5dtk1P4Tz=%9$|U$>X`KcwAGsrDQ+Erm*-D3V
z%Q+Ip`c^|aU_OyL)fH@Zl1`C64o81&Y#(|cI?}?FCI$tT{e1-KJ2&L&SfwBxaPIm(
zp9nv&+P|Z{nC+k1Iw^?<>41Huk=yDq3zqDTd%fk6EjG(+riRNIbhI!1r8i{0zxSQ0
zS<#oxYS9nU0s9JFH+e%PmCY(nB%e?@_pnh7(gEvXJ3+iv&wb6#>ynx}{fFycNf4d)
zKgANpTSv{D=oYU_6Ml~FqC(5Z_k;1rz7nA<36n8PJw`s8U`PkdXU8Ug<!|b*ewzm@
z8)S_F?{y&^Fdt7|?-Y6+hSdaP^MS$J=C;&`j;_6q`mW9AUym56bO@~1dj=@s@&Wq_
zm=~Zl^m#7y?QYaItM@ov0;B`>Me+Sfa_mYZBTM*G*^hLuuNXl(U_A=V974~-B8d49
z^&GAe1YPEUbijH_B_(2rhny^Snd|M!C0F{UDB$t|9kPIWHU7fuNn`EWZ?ad43)2xD
z`D+Auy-N9VVP9nPlVAOPY!2yw`6wUIsJN33)w72*8$39&<i!W+fPGCjH^?M$yuFdl
zlcIZ}J9TA=94()}|17%a9#;&Keq6#G<Yv6cgLJ^Y!fkF8I8!+K36efMqq~@G;SA}3
zeN9!XZu(RWr7Gs$-!I7Rt`miHz<N$S2^|<Yyyw|ISkd4o>$!$IhL(@@e*d%bzwFO^
zmTUG$RK={S5go?PD4YPRz~f+*)wejAB_<C@2kh%TTR%?E>v14O#)Bm?cD5XONC(WB
zk525gx0(%m9oIs~x3?okc!<v4`qNFxn}oQ#xZr>MgA7E?WN<lyef5Rrn^t_0(dK1Y
zW>v~GwhD%Hz`o8O66ISxIz^Qge}e4P^45+TqBHaU(s!53TIc8PeHHX$Gms&HbilrN
z4oOZf2#o%kP;|D_&a^WhAce~Z?8`2yXVUMuhsfpn&hMMfLlTjQ&P?7x;*Zy&Ij5y_
z?A;#PtLP#+k=mT3pIZ127j@p4ZhrZ9l^W6k^NG6R*<dI(BvTnQ=<T}fMK?-<mXGuF
zgi6lVJo91hli4-fXtxAJr*pOR69rd>_EUC-Bh$nyVMdS+*q54^QsRe;Sr>?f+hin9
zMl5hZI^f*>>{{{F?%wZUap!1OYA<Y=B1X%n=lH4F_24P5e0*-{2L?f5>5vZCSJotj
zhD`1`h0VWb%u?>i^Vvf>U|$s}2}UZ`K1}y(Kgr&9P!8ZjbRud4xk!{B`8}`a--sE$
zSif`>E+4Qj(@18|txeKW5$~Chi#vR{Qb-5vi)(-2HSwR%DQ7>A%$c1M&vHg|B8R7=
zn09M#SqsHEt|~m}6oquazJ8o;d7bK|M>|7$I@7%U>~$OwTs~l5Df9z1pDMI^ZE8A*
zA9;UzUybPG{r)Od{WI~NWm?)g;VRcz4@4*0U`ko$Y@X8*9Zrib{qij-NC(VE>#>{a
zqYEm@7YpBsCX!sm$Afghd~6cN6f!9GJVt%(a|cS^_%;)w<s7#g*}Zyik<LCw{#EJz
zfVCf_1NK!MU39|HdX2F+zkXuzVz8(hqyzS~9iR4Q&uU#d;8YDwgs1=w38KR^TVKA<
z!+x^k;Uk&+;j|ZB1aSF)eNAsR<Py5`YbD#5{E(@3RE&glz`ma2mP1}YulT^}ZenuN
zSbkU+(b4=fI%=)W5wbE-H8JO?LrM+lfPD!JWw5_`9QKCNx#)~0D`({>K3qOvUnJ+k
zhr3S~l3Xy?D&A{sEJ;9g)+`@OD*I-Pyrp)%_c>&|+z8R}xid?zQ(M%3`nQs$G*Q8I
zCP)X&=it~J!G+H^dri*=T`H4X)tx$mmQRvum*Ltq?uNp#^9^%U{6*=APO3E7=Lq%X
zITI1ZUbfLqA9F|t>?^!hci~BB*qfSJ>Y4tj9c4a92b_EUyZS^i)>WT7+m_c^+WTXd
z@X+${J6pmqtJS$uBa<+kFxmMw57B8e+<#knHQAz}Kfh1I)3w4L(fO`szICFSRFZ#T
zqWr2Nojf0+BebXZz_l@~Q^Ys%Qag8v(9+?*{~ZwU*wFv@63n^g#L&zKm;3*D2hH^J
zh3n@^^B^5??s}Z-%(M6Ar+UM`*(=08*Kvk)z<T_hxaGui1vq%Tg8OeM+pUQrI#GI5
z)XZP31XkRC?A^Q*W3v7aE+4QjPC=$v*F*W%_J<d*`8$4Xt%h{KzW66Ke@ZkjzNF3(
zmlh70u<}538Vp6x_7IVLD2$lAn=y{-l0tOu782LAbl;~SPP!Hp?SEqmcYu};-Hp>*
zw@kgY6+hG*m<tD`G($RIKC(L*NzxRre3?HUEY7r^z2k@Ij1dmlQ9mDZQzW!v>|xEV
zkw<idp4yyGW)+^hwWJay=uM%5hv-CIa^C4=dH&b_1`GAj{uj;WeYl*#d<vrSBW<`j
z+i-hShCgnWGx|X~;Cgmo8j@e;e{4`dbR*2*vb}^FqyyHYJt||u*Oe`XqhIJhykgx>
zg6MR;!AX?8Hp*RoVfk<BOoU+99$G%Tcv9OxJFQMWG}@|*=f?L6Msz;8YhE<|<!~kH
zT1Txr%>s=YqI28st@DrSWH+7DDQVqTB4SAp9m>DmG$o?lR7pAnYmC|_FLmvr<#YE<
zq<~V&!ouLMABQvsT%N&*jyg%@U~k=>fDOWZ_ns?))M|*%eX`wkBi6u_)#=Z@J4Oww
zB#4ga=ZjU>8pO><-#u9yaW|pv+Cj@_yU_^mO0&4ujMQA~A@SBkFrxEH&u#XfecAEG
z(Zi$pcTbtBAv#XAU-~;jj;yEs;Vi_vZO2A}=%nIJ*SwNwVHcEe`gk%_o~jFnmd}^4
zu^3NpR|orV4cS?GT`z+X9ZOY~G@)Z9McOTc?l)QA{pV+j(CSePr8Z#{PxPr=v1~gp
z%H~Xh=)AE1_V%{omBu`64SG2j(bTSOw0ig?{1nDslCjFas_zV(;4lwHbR=8G(g|(e
zoRqd-$UR%vU808QRBoPSa1C|+BQv0Xl!?dmFA1V^`bb%i(QnJ9&blGTJPqHSt}V2D
zvh!Wo$bNWtDfR`$yjv<L2}X2i`1S%<_$Io!6`%gI5dW~LhUi?>IMrdGb53Ga!HR#<
ztRa#F(GeSw$<|4?lV!3__?IV)_oeGET0RHe``@k8xk8>y_H?RJCCmmRI_~2YQ@&z%
z-Zun%kWANH7EwcV9+NK!4ybtuss`!m^!jh@lOQ_0K2ik!o_gyAt!s7XHNUWSZKCBf
z_w2FHH3E;WH-ke#XQJMu1S2|B%GEcx+ecPcZ2s-0Ta;y~AvzmW9`z;Ujo0SYe3aN;
zf2$@zbkbhYv(9BztA`P3M&Y;8*LVFv%SZXUgJzI+f4#WQ_mM?XiSA%T=RlxIJih(L
z&h_$rj@?pEA2mehL10azi(|O6!{LdmD&{^mB#4e61%timp>xBn4j#q}{B{Ff8*ur6
z@7KM^6KTd&T2Fb3$|;OGT8J<m(gClZ_j%n~)_)%xw`7?go25&0w}*7V>t}yciKv_Q
z${v`*hv?u}Z2#)|zCn)tJI+hL;qn3N*&c8>sdFP@5_9qp9p2PHvgDrY4>89c(INMY
zO11jrHHA5Rh|bo7OOz_+)-#y1w2qb!?!jJwkfn<k=Hwwd4F1P%w(+Zd#vFS@$Aa^L
zWU3M62IlY~I;NF^k8a%Q`G`47ztHkg_)5^+G{W74IeCbV`Ho*w`tpt#=GY@TF$eR~
z0mF{>F^3P)@%>C{%kDKzfH_NRX!#_&ZQT8^ajzP4@(`U?lJB>L@#i!!#~#rcP4*YC
z9~zs+96m(npoh+EX14ba<}Ce0%jXQfx^BZdzbNM9Av(5~uUi`^DN16FJ)-0AYv-8$
zOes6&@F6<C-KkGWZsHqa&e9LGeDEoIclJgp|6xuZqO-v4wRGe~?SIeR9?`)$5iUva
z`K4p^@F6;i!_z`_!$oQAag;}HXuJwpT1Cs}id*KDtXP6vg(cHG;$-g3JVZxDEGTX7
zBKd%wmf`No?SQ}bh>p(dp&{}ZVFS$JLv#ifnk$s<y1HTi9{th^T0V1vjQpZ)gU>N1
z57D`^_?q9NvvLb_>=7Lucl?~{t?DAo;X`!VKM_&gHW$jAbdC&QOxBNBT1Lx9qSgA!
zmu^)@%*jJ^npc-ygxJ~@F~=U!iA~jMudCU8hdF$RPViO`Gn=8m+o>wN8}2f?wM$EI
z`GD8Gb?X+1B1S1fxHj|EpJsvTrHGEEMqBxhKk}scQ|H!NJ~K0VAUa-53R7Q?UdP2-
zjhv><VVsqRbinIgwHHri4<vKW6P>NAYKUi{z=L$a_W}0Qo4`LG>cYI{%@{|=hjW}-
zM9Y~X_>K1!wF^5m&Km~bw>Mk!ARVx;m}bH;g@cM5J+Wl3xGk+pdql@(^{L&9*N?eF
zqa@X?WK`VegLJ_46BcN}JW=nuhONW(1+;wlL{Hsx3%Zw$t;1?WC(4?jW5M^*b!`3k
zK{{a0GVi65q9l!+v3bcOI);W(>+<8<McBOX5S_+|G?m6~#$;?>&GTqE9~8un<6hHh
zVe<+`bQ;pS46Eu1eq!^|MReFLYx24D3Qe(jF+n=uyj-_jOrvM^Cb0cJItP~zxZg>w
z-=50H<H^G2UJdDh^+=t5#PR%btH$CVTRk<Rd20_u=YwGvUcP-%5Vn4#5FJ1Bk&bie
z7H6=z<7VOV0rxvY^cxvDn_@<6?#+k}?oC*Y+pd8MHuqpi2h4dMUu}_x?%@tLcQr@{
zoI7taZ*t5ULlQQ3K1c_wXD?*HqQc>xAvUk28MvH5C&bf@W0Y^+1e;eLqyx??X|B;Z
zATiMeo0l`9lO8oN-8Zu3j?GI7(gFMW<Uwq_Mg43U%NaL~mQRU)E^(*ov-Y~LOjo62
zUj|k~I$%DM^yhx5)m0Q=^YVjqz`hK$D$aiLQk%x+B@gL<^<3r<eARX2CoeWH5=6%~
znlC8atqmW$9vhf~%NeZ4|N8vDrzK98vAHKeI$%D{_tusOpQw0Z`_u^10r%;z*zc+7
zO-;kt^_Uc-1NNmNV8$h`W<rUrLp(?a>}#puz-mYQ>OQu9n!m&43_7zbq)omyq|Vs+
z-4D_M`*MBarJf&1$<B>O$3y%~Jx>kN0qZeRI6YMTRWb=%&m@ozSP$>FbNlCOe2201
zJn#)JAJ8E-34a;tKPHW>=LAIO$l06bH>c$}u=Q*X>45np^em6IQ)gVp)*%O^1NKG#
zP4(w&lczYg4wt^d<pb8UTAcBaIjKef`@TaSqyyG-g7hIjbJOot?7GDn(gEwqo}<Tg
zBosX0*@&%u<`kJJis(pi(DTla83ml%`MlHmi;8i55-p$k#l+O`dj)pbJ}pIbNT2mk
zv~{|4VEfb=(gAax_@Y{M>E2P(cpUfqHsi3g6r=;@oPV96c!ohDxg}2MSa)FDFm3`Z
zpEUfZ8-&l7gs}Zy4e5Y=k+7vdUHoxp4%_d3h>lx>6vfZ6*D2UORfBZEd`_ktMjBsG
z^27EQ38I5De&CR?K_`Q)pRRGVoXNOS99;bGeZ<yJFr)+K+$X*D`(?zuB{nZzL?>x!
z>*fTfe={~OCPYVIY*B67holjk*VGtVK2pnjr+u2OI<R@ABRV(5e={jg)8eq>m^q@;
z7Mvkqyxw{Yn>z=hlWE?|dc;xI5u5weC|o|^+;0XlFUz`~AjIaLhv;x>&MmgyWA?=6
z?u_WX>2YFfayUAIotLE$9iDC>nK=z!7Hs|CK|0`m&mdC_7@V`0#?H&lBWO7{nnmwM
z@Cznj>o6G70qYqfa5D`H)_;PnLp4NanLkud_s!HB?0ias=<sqWzp43cA&RZ%u3@-*
zz`h!p2r0LF|MX((IT+Fb*K>G-c8$R~_ovu;)<tx9EIN|SV)O{G^~{9mOyYf#IdQ{<
z0$YbuU(oV7$s~APQ9IcaTR-WD4&T+b;2(Q^DcHQs5uK}NqgQ^54FAOD#R2Jn^OAk`
z$AqS}_#ZZ}r6IU{K<DYpvD(>+=^xm<N)a7iww17;jp0IUULKGRxSr218RxUhk6B~$
zl0tO++KLB%ZN1RL=7k%C%LlCI%7gYT%F8@1*u1JC9Wdt+T<M<@Nw<KN^KzAc!`1}-
z5FNveW2Z$8l0s|*BUCzl@H5m99c%Ba3cT^`n#1uFzp~vzU8oVA{`2m1&dE-ASUsbk
z;c^D^34N%2#pk`21XfQvq9c&)$9MLDsXJDWJ))z&kdPR3vHUhxk0_$E_tS9d9I?MO
z;~jOeRm&GUxKD8Tfa_5HLm|JWDIp2wR3kc$1a-a(ahXps#{<#f?AJVCAu0NYIZ}uY
zul4+(R9eOk=HLd<^5N=CzS<cw?S(njh)$3^i}5RGH+#(SKy-$zmrG8FG=0GwDMY7x
zH?YhOznUF$aQ$fcko9H}#M}({jXBkb&hv1sss>TVQoXJE?Uz?7M?4@M@ZWQZ>K$<&
z&M6is3l*m`v6$sngLJ@s5mCI7w#Gknh&?Amg6KpCeOvo!d7}e!x;~=iob%=%uXk~{
z1Lg!HI_wJfP7Z9^#$%2eqI0N1Hq+~Vu!cD#h)(*ShpN6;BN{QM>jPRoQQqRbas7Dj
zFeez%k!|`G|5GES7jx7Qol5I*`w~6(RLmhkbjb1E{+0Eb`M>$}q2)s?(Mmp4+scF0
z6O8D*COfV)n)p!)bJP%>7%z%UI<=Ro*z;o~h)%L`3xnN&Yc2NtSXVDvKGOml&$Na`
zg=PX{tPfXh#e)%@q<E))twgW<RnIzornz%=Q4P`ok7IuXFB-~~^gqA1Re`U5jF^lG
z(gBZScIN$!LOg$$F=w;~EuZlGM5i)`qi--L0nr(%oXc1;ZqvmaBSgo2glF1E<zhMJ
zFd;hnN2Zb$bi^ewXS5qFpQRi7WncU`u3}CCqT^9j&)?2Z@&R*<5FG_g)<3ua5+=-H
zLUc&Px%>{tmm@J}v<odC<DU5C!b_iR`dHaG=kZgx5+EJ$dj7`}m6p`GGgg>mj_3p&
zUp+~iB6}Be_z<0!Wk=(Di8-4wXT1|HAFwYO4(|^%rQ_!?ry9|5-m(aPC}rY_Iev)F
z;BHgm$|uFon4^a1$OaCZI_><thdI=UPO8~knfuLWRWN7tJzCC-qg)CyXMXZvPCBB~
z;$&;u8A7{?IrfN-zVo%IZqLkz*z?AskPdj9kElskPvx7O%m_Wn<cAmMy50eo59l1^
z`S1jq=Jdoa1$cUDa`TlUI`?PG>eN{ZXfekb(K+I(>kzfKa)3Fah|ZsST)fk-3yPSt
z-j0?}2hFjwC-{E(TisvJDxTsxUyA5F+|8;uQ)~ScbDR;KYocy?LJ9|a*z?$;h|VB>
zH0d8RT4&5zZ$rz+s_tyT`Jz1n%qc~5#&#8EPCn-Q@4lQ7olxO}^R#NUS=jT~qKM9l
zNoB)gDp4Eethb`&b3o~c-+5GE9CJz$9rJrZ_uG4IDKW<x(J_+>R(zsrtnh0)spcqQ
zLz*a}6FKP7bo@fRCg!ZSpylH#rF{PIk2f9Wlp;F(vz1~oiceo)jx(ZDt0{WwBJtIX
zu6J1~c9$wNMG>8y;bMuuk@(LrXT2FMpNKP;mmkw?m|#vRq7%}$vpDjnLl1MD5uK+e
z^_K))9`)4C%~~$D`Z|gtI<ot5Wl;&GwV1QsgqBZr?XA?;{6F(Brxei<{BFD7ts?T@
z^*AFs71aHze`uq=Tb+1!{l3f6tSF*GgHPH%Dv4vSeZK4B9(!YZy%8;+AvIQm_0O8|
zx5VwU_sJd;l_EOHdkh*>@ee34#~INfRR}Nawot6Z98pAP^=wvkHFNGh=BziM<uiHL
zb6>cAS{ido5gqMx@`s&FY5y?C8PR!5FJqOoZq<T0qKJ;++_zo2N<MtdS+7USN7T(+
z_Vj?TD&~|TI#a^$Q$!iK#4*Pi(b;zE{1;}D#f3Sdh|Uk`vfukQ1!pj4y$&s(uW>!<
zv)N03F{c#KDPGwqlle#3ggMTL&NI4kio0*?%`rz5(a~r=@#JOank43|*P`XKV;n5i
zUvM%Gb4n2%QvPkV*`I6AFvl6uDV6*-c0wow4|7Bj9Z8BLb&_@SYRp-$LCZ(EG2j`!
z>-iU$Q;O)+?lV@bC0x+Q9A`vlcJzJ}`>tvS=7=IX5v(7`#AI6AFlW6QEg!PG8(+uT
zg?BNh6wxVAdW=&j?D@a@3(<*oxi$T~cKH!jk0_#(;52&PV}JM!=B!tt<?||wZ;R77
zFAQ@^5gqSaT~9ZC!m~HWbnbshTjX|zbin&s0;^{e5+{T7F-Ho~*^v}hZuzR{f;o7I
zPRzu8k-msDT8T-Odg+Xwmaa;;oWZ`5?0l{p3=4%|P9&o9w$jI@$abI#bBqw35SbNe
zm(fFE%;7+Eyr;Rt9ak9sV9rtnT0RoaWhZ=(k*8x$DWdc6Ch=d5uFpl7<ALauD*ate
zG??kY9C<`%eP=D+!FKa8=8zyd#;N=p6&K@;FlXQ$TF!3mWeZB0MK+j|faqMhCtod-
zWUhcY=7`RfhUshUqa_Z77b3_OOs>iEK|0{i0nrUf>}lPQvACezQp#a<G=T)tAqL(#
zS+=DkqL&iKT=pZMB_ZeRKJG1C&fxdsZjIo6)2958r8}qYaxG@1qzlp^1?o{dVT%iG
z?Y)J!=#VWl7J>)skO2;EFx#lh@7u>JI*q>LAv-q*AnO79im1nLROtHL*?FBJq5K{z
zM>?bf-ZwTJ?2Q$b-(<k%ZVu^yb6=D$d+HFyks}^*uJ$umd6zt-1I}H`XZx)1Mq8Td
zfA035yEB&}3h98yc}<abVdFl+KSs`P#-FRJZ^V_Otsi$DW{01|k0qB!-!!EdY(MIP
zbf|#26EPjeAB*ziX80^W5jwYN1zQi8^DvQ36RUAcIBS~a_F~n%_b6mN;M^nbuUx)d
z$sAvv_d$b_`SQsGNC$kMx8Jw+{@xxrdLho|<3lIw>PTluhaAX<wle6_UY@>qa}V{@
z$z+D)U`Pkt7tgofFh88y_?11YbTCq#>1KrJ5Q#jn9?H;{zTGKk?DkyXHy@+}=JUgv
zf|ft0=}_-)A3O1dolrbT2b_EIv~4ghtRqd{>$%O5GUek_WpL~H7?86jekM6ti!__3
z+);U(Ay3hDNC#X$JjuxnJd~RcuHXOo?D2#4oKi>!+^5nw(Z~U34nrB&hcX$-SwB1=
zoufcsKKBZB-892n?_T*;V5oCH)*R9S>uEjF=^V4<YKNV__#hoHpP;Xty!ygRwb=P<
zsT6KrpmRGs_-Oq(rMuyzuX=n-7}xR;9oq1D+=Z+-)obp59lFj;Y}-RR;QkWO^7yPs
z9OSV?+3#^rUN=_?(gFJ-?)jyhXF9yL<ng+a_WOYdt^_V0aDTNIAJJPsdYiyiL^RL9
zlvrc{(gEkbu*Yrt$CN0%9aq+(;~xG!0nsr_#Ek^=h%Igg1ce*hm2sIvI$%DzzO#f;
z8I?Mi!-43iT@u{aQu%Ppz$9l`p|N9lsu(V3upSbfXgAB|1Iyn0<61FW*`LxO9Wdt$
ztGPqj3o`hWZf~MP!~~1&5gpF>=bzZmsQvNy+?%00KoTPg>41Il$PIJo|CZwKc>IvG
zq3KX#y$CHIz4*fSDU(YR*4yRI-B*6rmm)f4JuR#k?vyF_Hw&Ftpz2z3Ms&Q6)wt3o
zE_zAvEdHS^&kq$vbd+8cn4Znrv6CGN?^D)&N3vdsmd}^qS&7f7V=<IMtVV`3O7*3P
z&P~Se{=fd-@}jz{XSD7geZv{iq3De(nt$6LXW>)X&GM{dN)*v~=5@)yu=awByT;>{
zK&$oN>u=!l0r$nTG;;<zLMOLqiyqc;=^CnPNC#Zc2CAH13!cxq7Y<EkPf{6~dq6ti
zakYEz`SPSbzPIl26LM8f?xebq4p`5dWb3uQ5ld3yO@Z8^-vu7jhz?h|w#K<{QB5YV
z<&1`-CrJki;Bp496W)lC<NskE9$%A^6!1BDQ>7Zx0sFc##c)5&ZU*;`e>usXHJQN!
z(YX}<((kdc(b!Vkf8HC*Ut2;7(Fv-LP30h6eJvhCYS~8qLkpJ=mk-!isnWa4XPE^8
z2PNg@L_^$Fs}Y@*yjAv{!$s?yHG3hoe<7wGkPbL6BiT>QRi&0=w2CFSt`i(@Fo$%&
z>z3KSm7lYeS4UKKgL$9U2l0tQI$%DxB;u|b;Y;$osW_@=%Q1bho`;sRsJZPuE@tz<
zi==)u52;h*OA#IGfT&k43{R(5DL3xUSkdJ<BRZ7Jkz7uN6f?_=9TQhr=($889Wdv)
zKldLLe!Rx>=2Fr8BfncIc#sa5^ZVoH1EN~uuiyDpws-ye7oX-_w47%<q*uEM_9eSh
z?%tCBEX3#s>42}l<^{^n8SG8^XIPh71n#pPnnOBZUjx+PH+}v7P5St;R(O(b6>&g1
zV9wEvx5jC;H>w{=;#+4H^IToefy;*-c-<8EOmMa;o7*hrtMBuW`|3mqkoAClDKD{5
z7ZC>CclA-OQ`-+GGlF!$`y{3>Un@;Wr5(kbU___!lDz%VPtR`svT{jyTNYSS4e3w-
z`3N_gvW~{}x?#>JqEmeOVQLrKRn{r<F};<-E<PNj170Uw)=%?#cl4DU=D_X?(2+fN
z_u&zLK`#lRu8R6^@2y~S2Iqbn-zkLk!x;mYV)xJ<DY7y($i6@)KzW)bcOzvGtA_;9
z(XcCxi!O-^pN}D^B4*;X?t<JGr+~S?I_mt$cm7_J$JbJug7U2ONXUA?efo@(FOXg9
z8HEPFi?F)>@hsTm1~pKRb<Fv@|H{X7oXBk}pS^v)kpNi_E#P#%sn)LT7`Z-m;&F^l
z$+0U_kPdi#XfwNI&7qx}i_IN&f3X7fw9e&oN*Vm7FQq;<f2CtBSq<`hK>|1fF+Hzm
z7_`Ei-g|UjdDSu^59xq?aWE(|6ki{s4p9Gyf4qQPoe9xNIdJsme-b)ZAHK_nXI81V
z4w*9}&{sT;<U^%d(UI%;vMxBaws3REdcbw4ZBRkLX^~Ce>oTtD##Vm^_WaHQ)Kk{~
z{ZmY3>Ysa`SSPQVWZ$fYtcL+`L`a@|c|h)`#};9*e?p{~i39O^%&XthW2?t8Rv_-|
zv`ySsvnj}W*noNhMl&a)))<Jt{M?MaSQx+U2U*Vv!14L^t>F)MYnpM5H$_4}&pRf>
z>-qBAHsAO)l<GtTNslqCeG46htOq=<z7?W1NMRK-ejCeP=W#|aJOR=H_r;!MXVqv0
zy?&jZ*Nvwv_kKA;I^a4yVdZ(?*j34mJ?AM8>41G%+<D&kb<{s-EK7^k?pe<_JV*z;
zt}DE>Zt!|i&Deda{@E<|p%v`<0sGSBYV~g$Ib!tg<IaZ1-rW?~>v<+%{g`Qp;Y(fG
zOZ+A^&72+o;0PaNU*NpNPQKLpOX!2A=NYQ!5nUAun-7@te|{WRo$JYm1Xld5KlEE4
z{hA^77wFKQWSee1MQG?h%TdocaLLgR(Q)uq%+bXES!K%mz&e&<y;mO5@f?j2t^aYA
zmp(B}Yg_)T03M?AnrxTwS-b~TQ{@tcuD}H?*y}Mc9}n?acEx(~oeHn>I_D>p7yTg5
z7vMT%b(d1nxhA6<p%+8uTq?Dp3+aH@hn$?Lj<mMLgV_FJf^@*XW{X`&a-vc;u>07f
zkk@0NBbPyW??+SHS<Fd5bbdJIkR8@dwXyV_$C+tgCon>E7(ae7dbFXo@=<Ms=1ao_
zHxr`sF-Gj_IVQ;`xiNRWinTnwN3-Ex$AR;*@{T!LQjwN@TIllmXM)r&>5vYX^ZJ|3
zNaflaJxu@BB~<S_`I;j-Nijw@wZHBM6M0BaP^!<Eav(bAH+5{6r>OJK73(b%Bvu$s
zWx?eG_SJIRcfTdL%w0QoU;LgdomD!bQ?CA0WL(zzS!S_}L%@h#qB)|2zsf}C`gEk6
zx_d7(`s%d`4n(JcF9YY#EcLnilWsTJ>9My{nP~YKDL8HgzUMZ+{4eC4yIe4LI->KH
z=nbn1DW7uiJyjihAFA)>h)%%hf)!hco0*`rF`=GDPd^8u<LxAGeUnJ*^7NX|-Lz{@
zQ>QZE@&R98xb_Qn*xOj{j6KS_CERE;Gz#f}>yW%=B)>nHZQSMkqZeO2gkL5gI%a}w
z?f9+db$;>}$o_HJ3Nu1<%35UWX2TdKPT5~~?l~5%%Y^8(20mxmH+;WGK%l1|M;i5P
z^fg@0U_M#-<lKt%6XaukKjQ8%Ug1eVbZ!z&C^VY9`NqTesjs8hhujF#0newQ!Gl_l
z20|Xw5fi^|61*wR2kC&vXPs~Ak_7%?vae&gxeA|HvaYA2<@2C{`9%8Asz_|n(2Ug=
z`nRQ!4%nCK#@z#R_B@)wHWpKY`BzbXkPbL6^V10%fr=NjYQNqIlYHqbC=cm?*Q;_v
z43E1#dnXT+0y2LTdX+IjI$%A8)VUo6@j|SkVq*?Hbye3!)6jCxVM`5DvTwdJ*mC`q
z^XH#`5)hs7-lI+NSEx-_CF{pxdglKcAv*2>avnc}N6t-o9p4<OKDF|nA5l8|Umw8B
zhyU><n2#J?+HRDA>`r@8#=FPDT*9NNXwGnOjmcV)S1zNGQ*0ZD{*eSkhxu2X#)EFX
z)6>FIS%3SJ@{JIk(pIJ5*ZIG_LVEt(sQ1V_&V=X?n_dWZT)o=0O6j*d$VaU;ngW*(
zxW57u=1h*TwhkrH#q<3VIcAUt>43)#&yNjFBlqp}DVdUd@E10uoFN@>?z&GNvW?L*
z{5wn~&dt_Q*B3=}mV~UBW!@NGO><y)`GGStZao<;AF!T~OLAAId<QrtN^bLoh7?7X
zB056Fy#hnx{13xP1}{h`ahW+II+v^dp7MV^CAsiDqsNVBlTsAXS;r$AYBJd7o1;9z
zGP9VSv7UsMPw{-Z;dTpeJu_~2DrafRrWDc93%~qHcb<S)UViO;FrhJ_Gomw6;3Xk^
zj;X4kL_p2hRI5Z3(HU?3P90BrL(?KEOx&H8i*`K`EuTN%htnhJE<e<L+iZV->OOlZ
zqI0I~FUNpa;HeC}#*qk`=sV7cj&`sPU7D#a-pX?kl1jrbIiiRTwR_L0WL1S|>f$df
zwv(OZ>#xxAneMx_NoH*_C7dmh8~f~CQYoU-`_lX)r^prA!U1Kzvo5R)&WO(aJBn$S
z`#Slx^xbvlxx<r05gpl}<aSTJRuamtQ=|SjC|%YQ;PL^FtI18Geoc*w=Z{uYc8T-p
zl~zMK;Bm}5P~pTAn<mZ{g9hC8E$cWBNC&LPV*1O)CplT}t;6e<_k_>-$wN9cz#0F~
z-(Q}mjh$~g`%~a-FWrvugLJ^YQme^50unCUCdA0}@Rv){!qx*i*39`H9*hf~ma+qD
z-E*w(@DS^v%ei{(mmZP*a{akaf3F&PH^;-x9jwPfIBTq2LbB0eo-vuJH?Q3f(P^h-
zR;53sk)!DrT^d_7kS~wuh_nB`cI8HC=x9;*pYfx4`*?^B)iB9+Si%jBUyqL~$$Zl$
zZ;nIDhqw1!H}1BqjQ4rX{RhVs1pE-4*YlpM9GdGaf4#5Js>rVh%Og74or@H*s%-T)
zo=;Y|OVtnIAvzO3H3++36+KvHoC^H^*t_$1D!;yO_!Qb1HyJYzWtOpo3ProfkcgrT
z8Iv)g$WYi4kusHt$~@0fX;7Pzp+crmB$OdCWO&X$uGRT^t>^W-f9qQJd0yA`-1qa>
z>e&0(@BLk$wT^Whd$;X<+dcDP{Y|`lZV1TS_PKh+{^KWuPJt=aoxzxn$gOwMN>90J
z*K|T6$wm!@nwZYyNvGUR2Rv<Udu~-xB|lA~!gO9IIlTR{Gwi#^9v*&s%WR?g8+iG2
z4coDIq)eUdq%L1|&lr&iMs(oyQ1;|?6I~DC7Y0{4Yxpkj)g~c2@bPY4_RNl*F^NjG
zQ;~M}wBdIGq65GG!>-?!<`q(Eu0|3t4cw=+M1|<UuM3{tZ}8m1^Py$XwPVF@qqAdc
zJX+4M^O@mP#mOq?JTBck@1LAGW|fZU!1*j)RrTu5IjG^T=uNnCt3}ls)1mp1x$iy2
zkk(7-+0#~bo)bct&ZU+`*ZduvhBFxrxAI~Z(gv=h<pcMtE^AoIKg!}VAD0UyTx)$%
zI;PV~jy>K|d4G<<Y_}}ER%5R<rqj!NK&3VQlz4aKaKq?8X0s5c!&69l!;q?cmA2&<
zafb11{y-dBKJfoDX3u91+>jEHw|l4Jo_c^;+8nc<?U9j^(epQ|$}OeM`%Z7V#Et1J
zi&boMAM1>9h&MS~$>6oW3$b7DxGSqlcl>^G{7I^qloSoM{kbGeN3^O$gRMnvp+Z}J
z9TR1#${f?lUD`?$BhY@aI$r+F*Ay``ZbS!O5AStld`SNKLeltFU7GJ*ui1fEv~h>u
zXH!ytSS7a3@6hclJQY6!g|(^?9XMyJ-(7VX*DhL#S6p|}SzTWA!*pg9CfyoM?kdgG
z&p)VAxjmtZ=`=hT7mk~|ywyASUcHmk&enx%X!*eX`f;nnpT{Y_@=?3ma^!)Q=4wo5
z)%W+DUisEwaNhC5bXMA@3)qIT_U)xNC^Fm<&#sE;$c$FKvk%m5n${$yO5Hu1zYv3$
zPtL0D3!Q^b)xN7g^RHwNaaChFS;?pR3B$IL)+HWx3?f1<ewdEZ$GtsC<MNcCX|h|C
zS`nWrrn8(uP<r%y?M%QPb7Ak-ZJ7(vX!*d$DL2Pb<(phTR|Cp;SwDfCTaW0#^HB2W
zM*YvGO>{+e&ciRF!)SsL9k`x%hf_~cZUhf{A5DDkqO19xgy_Ka_$9?A9QP<wI7g@}
zu=Sv?C15%thTo(Ntv<RITYQp{T0H!bauqFSxSnydnY55r2E(1)iqFp8e|wsY>Fj6m
z`2L>YbjfGEi($Ti6B7y3+43M;&3$h1NBMzQS+BiL(h(3H_<IKWQx!Q*+OJ%@DkI~?
z;K$~S>cIKDvNW!d3puV=ymk8R<i-otlqj^E;rUbY`q1=-pGQTsjV(;FnknqDhz?xO
zd}zts-7_?;7ovJM(hl2d8DTm%>;mua|2(wqTxIp-@y7L^h?vguQw!PO8pql$GAc(d
zZZA66dIc>XxL?0jIokX*_VA@<w3!7wt+*PC=^XbZyj=4X)QnIZwAD3~nK8n2miN={
z+BtqyW<PsYE1T!;2_mLrLohe(8*8W_R1Rod9`845jl|1m#39p%>@faIV);<ZF6-^v
zVlkb2OYgtUZ4LFYTXUUqO<H+rgy|#-cKc>{bAE5X^XMe8DL<Qt=}hp;rbsvWPn3Qs
zANOqj?cPep%cnzR?AlrJu*qbFmdWd~hdN_1oyQ#62O}~bROaq~GNoEsH)4e8Jl#`m
zEM{8U6-GR_bs=1xk%;M7CJ6C(7$mO)PHO~SK86<vdv@&WiUCe6rqkjz6&vu$;Viw<
zn;eddZ^w-=9p;rhllC%EKHv~Bo$%M|^?oNDU<OWWI9@(ftFkPv$G@loCl=G;YOOdf
z*7MkL)Vd&Py-cgJ5vD_?*LBUAmwX8vBBm3xw*B;Owl{Bq(;9}CkKLvHzowS;%z+b&
z>9DsX$uicDO#;UV(_wa=I4$+EmjoOlrep5I72xO+w7$>iO>*_&4Lq%v@$&HsH$81D
z5NQdVSWHLxJL{Jo21h#J7-2eNpA1TCsCVcChluIuM0gHrMDAGuPU|JSe6~`~9Bo%i
z*#VqbOy{H*Yopc5`cmK+VLHNPcQ?Kk_fY~45!311$uFN4aO)~?T0`;jaWgiuvLT(`
z2Ao(-hx@fp`!{xV3E&uEIu7fdv)!}}bAdy|bRJ$LT(IWr`3;=b5WIW>vnH;aFi<-H
zCl=GuK9+l?Pix^0aEvgWo}-KUD$O&yfJ4M|>gh8imycA*0;e??FQ1;RVP4;tMty-3
zi|O!*cb2ln`ql!+2-A@jZV3{eRUHHl5z`?!N$4f;9lQpd)*!rm+T6z2Wxae&ffI}A
z?0YT3SxUD(8#qRo4!cwP7B1n#k-#BhI+L%{yaEYkDZpvHh?kGX0otMHBe|}?iN$oB
zqTS4TCP`wzF~W2%nXAs3GT!6_4iVGo-R4NuF>+oLIIV$r`Rv=}O}pcF$DegI7Smb(
zrr@>z!{As@j}fNx`BFEtQNF^T^C=P2DVgsqOKiLO&wK*#@?n4In($sdeFNxMET$u|
znLbQY|7!toj4&Nlojh}1EiM`05HTHNo!fh}t~ma4{kedbPy7$A!P(u5f5s~o(>bcg
z#9x;?tq%HSgz0P=)}5@=Qw{_U5z`Uhq?W~hEI=GMt>^LbxoN_4Gf_eGK5$|&9m`Y4
zM}IR>$pOa*(~)M5=smM(<<E5s5z}csd*~BAHAg$Br_~=XAJb=V&glwKivTAU(<w<0
zD7&6D%>x`GOecaU+DBzHJ_j5krgP=cxq@L?!>zz+^~1}@Uukpb0Ds6m;KX7&UpPmy
zhH{(!9H&N@&RT(=8+DU~7O01a=>&0Be)!T<rVE@_U%Y%+6cduS&$d|uCl=EYs0lHO
z>nr$k9c6^+oS&A+@YU;J0`(9vodo&Cjvw1d{=jKHhnJ6Ho&53jo1bR_Cl=G8G=JB!
zta3~MjuEEQqsTJ5`_67V;1Dq#tsNRt^pzVKfz#@Pm(LR4fzJVxZYO~gi|Gt8CSRym
zIQ?fmG{SU73@GcAB8%feJw#0B;<k}DrawH`fzx^xFQ1ni=gkCjnDbbv*R!${Jvw6%
z9r*u=cJr*hKc$(Y1sroshcQav?l<Db-M|sTbS5JAa55P^I1HRoZ?t^ieqHgMp{h7I
zCkLEjOviQg{qYdO$Rcq3Fda%+^1%M0PZ7Y;#B|v5hUI!^WMhCsz;sd#epX$U5dM=-
zs~29*-_x`|@V<SX3F=A0bhh(etfQgYD*zm8OlN0Fu!+y@hSR{2z;yK1F?>%x<e31R
zDNnq7E}m3m(kIUe0jC<%vF1I>-tOw;3!Gp~XOCcYt&eUz-77Qij`BUCpGk-g{QsvP
zi^g39+%|j!4gu2<lxgWsQgUNsc-CyYWbyVh#RDy8xE`iUuZ8=*TW|q~jOiHi-|7(1
z;Cl%i5~iclVw)$h(@_#Q1WYGL)-l#4#`8UJDDHUq+@3MFtIvvA4;(V4vqN7f%Pxj#
z9ylaSC#ZAoX0dC}W#AAn9d4`NwmkD=S-_#V;pKC1?RN3B>o!y1kTD&0ZXVxT+NOHI
zAz?b=2d<S^*J@h>hk)sL)*gHnB{d-r9LgEId@hQOX2`fw&jE*w=`;uW-B}e+hyV@=
z(-H6)<F&u0+W{N`rgOVv(LwI0wFYn~u6X%;-%~TeaqTKQaLAa>k)z6dWSX&mu0NR0
zs?Mc+>*qR_pdJFI^HBT1)b>F3D&SB~<K?5D*Bjw^?)WHh$e519!QiEeD<_@<hlJ^z
zP!Djux{vD`a0r-=&ane|iwiL&z@fO{<<n#u6feE`WGQgSm`*RDKr%%n{|RtNn9gBM
zR!8B0Eq`(*U^+#o!q`q4<r;x{D9(8KICy>kmSWw$1{^Y`6L096sx7DW7&s(Mr!-+M
zp=#Vy88`$?=cmXkp8bv7yMRM+!pmpWzjK<-*=PbdWK5^H)=DC3Yv6t0kT9Lc;|HJ2
zt#;o74gu4l{!G-jlOuQlhvJBrkEITs+oQg|f6gCF=iO_&O{^1<gP<M~rsG|Ii{9;O
z=mFpmFrASey7IG2r~aImDGqq~OsQJjPE*OM1oe<H9fjFr#4}IZ1A#-rbavNsjqcxf
z^v}9Vz;t}qf>QIPcWwvuQ0(#Ysj&ETSXN7DD{#n|&clhaFMS-sqQD_xI=Sy<n@V>X
z+5(4w>4-JEJmNIeV*n226ka}NJufXj=L!EgPRW?glea2zQWxLOfO<%nj?en_o2+Th
zc>;%k=?uSd+$76KeH=IxJG^|3y&|<cEOze$4jI!q)5Vl%UwNn*I3!G`=g8J2k@?G-
zz#(8dQ&Kj!?1nG*0f%CXm(Q^OTOoU6uHC>PV>)T|Q!bNAbf<tr!gLP%9r6iYd-dmi
z2?D0`(ekjx+ZKUfP!GihFCP`9nrk!s%nraIV>(WQ5m`<C#sAC))5$)O<x<7{tRB=u
zz;xoZJZW|^Q>OxlVvUziR^Ou^%sH>6fkVc0_P#O6{@!5u&+`|ib5{CBxo=NUFQ|ur
z>5NnNT1wXL5djY6Bwjvw->S592E~$rL&kKr1m{2Q7!rO891^C}Y?2`58n){Ya0r-A
z#~%A2-~IqE;80HB<&$Ejd1`FIa0obLOecRwVgEg6*;?R`FdYRy&-DW8m;U+s3)9&V
zG&O&B*W(&c55)>EAKJ%qO<U4){`vkYrc)=_<j0uNG7IV<VLFda2aL@bDVqa_fa#DN
zq=U&0VMl>OvBb+qM0eouvdn89;E*w$9tUOW<C77pz#(BeMA`M@<%&*<z#(8dHuv8*
zecc{Q0uJRkUOta1e#zz*Mg8;j7p9{Y^d!wjqxsM49TKJ!QZH!h_4LJ`^D+U`Sts6Y
z&ucZU{U@Jec=;SEs;914c}D>b8Pmy>aoicV66FsZ5~dTPTG9M@p}ZJ41WadEPgKkD
z<l{fr2^0&wd<x|xpD~Jau!4HXn9h!Olje@kJ^x&1k}#buDs?M|$lgCeJp@eW`L&hB
zDitF;;84u*@{!x7_O(dN^3VImWK1V9cd1b|Q1}C=hlJ@YiSRnnT#@~Az93*aD*fM&
zWnEtQGY=_8@$xCqC%&M{Iq~PZmyGGCO}rUuk4*S;y+Ois#Os+F)|w=PK+XhAr$^Xe
zcxS6f3UDZ9c=@Q6&7KIjXz=HJO2%}=A}r3>@Sk-7^^h<fEA_|=r3;D*z#(8d#hNxO
zEhQa)&Vv+FynL!7uXdk1NB*<UlQEt48=p88{4-fVzet#lan-@ZF$Vfp;1Dn!t}3dd
z8<kwP0Ecn}FQ1$8trhF(>}i2R#&kZGMqaaBr`-k|5~jl^nX+*A_Fiw`5HOu5T5&eL
zOv!)#--=>_myeqBThUA1qkq;zGN!ZTAoGTe{XhP!ha^nr<%X8_-(C*RfAYa}o-OmS
za%|MUD|RFF)8Uqu8p>h3d}jC0^qg1{>IDuN(<#z=S^0YG(IMcFFr5moonp-=XMKP}
zz;y0D2<Rdt`o9Mb#TYLi1s97oOUj#{z#(Hgd-dEtM$_s#1BZm^l&1zaDx3{}02~6Q
zbDc=;dgaa01{{hJUOxL%jLju>473A>jOmo|9Q1Q1$X5b~gy{s)&fCt(KW3|tc@!$_
z_VpP7(~-?Bz4}gGW<78yhIsib+c>kb`LC4$hm7fHe|NBW=xA6091^CJP?gVqP*W-l
zI0Q_`X|zB_<)?@Na3}_N`6$Xe{H)pNycsxTOh@f=-^a|sE)U?4Fdb1hX@QX+d#Hg!
zz;y0?G;Y{=Xme&(xI&6o$Q>f(5MDl9)gBFJ?ukAH4jI#VF1j3dROM3yO_4$PEvA@j
zBuwWxv*)<!p;w9QEgk+gjCYp^hz|TY;V0jczj`qzR#{C{f9&(1t7_H9%cmu3_}j6^
z0p)=aM9s;V80J_+2d-!PE0Y(E8)7omGp&DZv)T349MOS44;hnvgQeDiQeXb_3j5x~
z(GG4z2d>9SQLBY~QGAtA#>{alH<o@t4=<nfxBJ%hX=f1)t|v!^M>0Q4$8>)8a0**3
zDTc)yi|ENM587&t=rBUxw@lCfV2t*AvsdVmZFih=g@^qR9XRJ+!)pOepH_9GHIFjM
zyMB&PMRefr1wH>hl{hW?cJ>}q=wR#<lX(K71J`pyFr~v$l>Oq@D_3R?GOyF39K;*1
zuv{_rmvKkgA30Wt?43$iAR{{P_ZAkF);Qe0d}K^%nc}8lqVv%j(SiH*b*I2eVf%0H
zs51T5sNx?oLWmChyMgbFUXm-W*YOjTR-V^aGDlJ&I&eLck%e1bg?<kCs>kkMy_Csc
ze*iD%XV2e9)!i?hdHIc3YOu9lIT+D_=g*t%gvyTxzLKLO4_SzZQQbE}bl~INo6Ab@
z{X*L};BaF){R;edu2JeQ180DQmJeKyZ;ZhG=*3Slz{$pRb}8S8Ik-VV2RI&>&c!wJ
z4{649e;idzN6#VpdoRuYE>I5@rej#+RvwtT!4^1_{dhUYugl8aI<0G(aKbJ{dT-jb
zf6Qv6->HF*uU$n7Q-%74myU_=7`R?`e8dCMf#<ViG_#waDP6!BiB0`))9QmX5goXm
z3MIz}6EEGXGlOq8ans#46GC+0<Gmn6=bY?IV&+z7u3)y|;+g?nw0vO4v&%=F{{7Ne
z;Q7*BJObaO(-9pwpC4ha1dj8+edsvUQ*FDl?sy<Na6MZ}OVvNy_tr`CZ#T0JDUy{(
zbl`Q~aDUt$xl7SmlgB#CN}5ze2#5}Ryzkf`EVtYFa#GqE%hr^`$BC^vcsYv?NXf4&
zG^y-Ps6MZM!1q-wrjtOgdY!nxm{Uxm)o~%}_7NjYhw0cMMON(-WBtJvV<(0mpC@8E
zr(Za4j-b%0$Fp)@S(6!MYTbvH4}4ra(AeIeYnA+t*(WbPQdzpN7}0^}j~J`okcOn&
zQMR0#O|=G(9(f=-a6RNNZ3O|GJdTZ)9^0okS$s1>bl`f{g<O~}U+i&8$+vz~>AWC9
z#B^r%l^&53Xa5>p+8QFpTf))07cb{$+x-21hO8y(^H7ZGb2rNuBRcT$zE({+9HMY|
zyI8x*lk>KG9l?kWe0(h&&{CC;c`y;{G}#tl$gN32bl`gW*-vHajfmYB{gs+0VZX<d
z8_|KsOF^Z7*lyKcF8E5|?YqDBMs#VT<qSL4_T|5Kxb{!(`XM$#+kY@P3DMaAy)Fnp
z$NAozJ-c_$D)lLXjqOu1qC*Ec7dWyfE(G6dyJb<CZ^^NG&I8eb`&F|}slvgdG(k76
zvc$<mF+?8IDXWfp{Xmo`Ol+mOe2L}Z=_xI=oZ)p|D|t|vQPs`$qV;#T9d0)>D2NU`
z50knSh#yR28KiIOizT>yXNg60{$KO3#$U4fTug-fop4QN-x4irOh<xIui%ONQ{S=r
zNX3ur20P^u9k^d96%6`o3W9#;_Z(pM=W!8O&_v4_UJo0|k!4g*Zfo>w+`UC}eOS2*
z(Shqp-y|%4E;qpdoKMpc9e5s|H$Qu;tlU@woKLMW9W}SqD}8;ImEe3Tgz20Up>O3*
zF75#5(}6u`Im7)@8yW9^RxX_b&Zp^^PHThIfYqHMiPkHoGn^6v^wyY;<8?hf3u9rg
zXLMBUtgM0Cg)p71XRPN%@|X{<tG=-zF4IhUU^iMm@ci-du~w4LfAgkM?1|;nh4Phb
zOvh!9po`?Y^p6ql6X6V}*p)pH9eBK!H*xe{cR8RRtzb5wxH%?W9?@Zd)@QK<h82<2
zHa+mW<eG>MT+ewkiQ217^}^d_C>3@6FYTx>o!e<&JJgL$=(`%<$wVotoUPx5HePT&
z8TR*de$aZl3^K*4L_At^3&wQlX;eQjoV={;Gf#c&K{$u1CZ<z-nn-6xjN9|&B5#_$
z-^+Vcn2rL=$MqfBb7>iMdujb|S{|y`z{^LCm3KpBzCfMy_G$MYw-rwYBRcSLQNb7}
zd-hIET+p3k4;PDHT_GVl@bA8PJN(%GWP@Blb<~m9POrp<$%qa-?pgIOxqsBDXO_vZ
zm46qqKZ;rp>_p!wSveXd*m9fys9E0yNhbnkJt-W!l%KmqColF9V;{Lp$y3zP#tS|V
z<{gM%BNG(rH%=e&ve!KCm5u1Y{hD!5{q-_y<Yhta(3H_SwP7br=W|olH?EylkHPO;
zOJF)SCZ^vR+PezD?+cHrq2&Yji#K<psn3J{8u0s-*@zB&9i?g3c<@fi;cD=Ek$#v?
z+v>Z|jz|1W=}YL28{O<;BOyBQ@n!yH!F`({SKyqo%~ZjmN_!%r1LyOdeBIOOuC|Fn
zyYts2#~YVgcjDzt8(?u@;V6B!UGrAukkMiDSWHKHmG|bSl^end4}v7)KQ-JmLUiEk
z@ZiVvR&re%xd@4^_dcc8ew09T;MXbDg_dfWEcZG>HI|#dq<%h0M0DVKRs(IVOnEzR
z?AiA{``c^A_)%4~oZ;VV6XO-&$v;SQ1gxtAhz>lTMc!U$UfIC^1FWmXhz>jt+2R!>
z!m0%-!Mf^)=)m>Z^~`S22u@1<nH{6~OXkrF5~2go=kl~HmY9<_Fa24cF`bP&%5L{W
zPt5=L6*yIT>dITn4z%%t>)B4`^visFQv$5>WJCwfr=@7!I@Oc4v|yb#$8-ezX}^Rd
z9WQQM`t&@`lIghwq67C!GVTjEopuuIhd2AD*4r8tjc&)whtx$Qk>=+*1I|0yhz>jt
zTgkt7TW%AoyP0r9LQS>b&I8ebbABFu%=)>MaI$J)`^*<DilHW=!wg+NcV-p5^Zi+x
zezSS`goXJoT_;2bUN@?eF71A3Ihyn5Ivmk~$E))mN9T!#%!k0C!gL&ikHx<IED;sr
zwXuYc!!x2@1#jHzGfv+m?w{fVzk?Z!=`h#yhUxnTb1JK^El9AaHfdry(xQt&`VUOl
zpQKkgXg!FaqQZ0-%BhY%Q*{YdX(Y2BICQMLUKuZ+Fp*sg>|FLC4H1GV-O0N?1S2}|
zaltMu*^uh69Cn>Tx<7D7XMlw0ut4)!fNn1I>9O&YI^E8c<qI}~euxe{4|AM`<qi{L
zDMj+CjvkEeH&ihl8Wq|zhIAW?$eYJg9N!lXFDT*VELo@Qnf26gOG$9?OCgig=hc`_
zrNj*LDcRYahasi8Vg2tz{4kyJ&%I^LQJcm49i4snV#kA3F&zQU3qpZBCK|hnhTaY9
z79=bv;^h;tbAzI>Soj)GGplLuY87KOrZZCFdcyL_6SC;<)jh?v`on&h&ceG<E~nEk
zY&BQvt1?b#4ys~0zC8?AIIFlSo2HN4mFZYBTTsBur{0ck<0l5Kj(OHw2H&nJC{$xQ
z`)oB>yLg8WbcvcRe+ZiB_QP}@5ryuRbQI0Kd~#<~uKBKLRZPckbmmc9AI+wO2R;3T
z>7v^g<ni)(aoOW652bwU;T0zP8@fctYD5SAe}~W7>Jo8*Ne9616lWtk@cJXtelNpb
z>i(TNy+-yE54oG25FPk+_r1w~e6P{Gn1R0Mqc2UP+H@pD2d<}}?yKoVu`0u+n~8iJ
z{rn9CL}wGUKJRFYv9uBYo)3P1*&NY<>v<tEZf~JTIH%q2^rJ-CG>;q6fzLaZBJ)Mk
zB%wza?oPiKymoM4U>n~2F-Qq1FzF!_$*yR>;98O}NXK+)gyqkS^N-6V926=L?mp#c
zjp)GrDh!Y0Z`fx`cTRIMU4mOZM*`7-a~^4aF3#KGw<uyDF&b}`tv@P<m(Qt$uLh@-
z9q#v<K6UjGzEO~k>D=l5MmMk=?GAo-+X>T|5k8Yo%C<R7y%N~CDb#pe0?~nUE@1Ey
zl=fI;0>9rqC5xBOQIZWgaghFjj;>s_Twj%QF`@(4Q}ewbwM=MmC-@z3KST!}cRAJH
zHi;@XRSj$B-z+s$`>SF)%J1o}D<*wf3|?!>uiJCGazO?!pQIP^Dr);U?{;Np-kyJR
z_GmSxL$fvI+TIL-4+V_;>e0;y2mCM{t@kE5XHW0ckkhCbEYCczqKfFi<CWFtWWQTt
zzeR|~7~9aJpH@_uPPlC4wdP&f60F&W_ZuYAc~GR$a)#@1itT@U`oZ+Yf>2YDK$=rL
zv4{>le`W&QwmuPQ^Z7JDl6@d2MlnKk;McjLOzt#V$I@<OMXlKAcUrj#VLDxgk-^T#
zpK9+O&0_lyR@pfvg_lpl(Ybbc#aE;9tygUw6e%Lrhz^|3PEAwYMcJW!&fENJlb?<0
z`(ZlK96I@lOv!hmjm>$S>P0G4F`Z!p0VX*XHaFlbNTTHf_v;z|C}T-lBR6oWF`eb^
zjGZb?ThoB!hv~@VH5Tn2r>6&wDyE~p=rZZFT-pkp1qr--wwfL2D|3=rIW72Xb?=g$
zO*N*YU>F_CKjy6r96wBFTUh!8`Mh9yXEy6vLe>u-RYV6~H$=DalntHIFb575rlZ~w
zrE)99>=1A$;%GU;^~fw`eczrqAaHxri7unQ`uJEx2cFM%2dR5y%~x9pP3p1tbMxOC
zVLAfAv<APg*wF%qi0M3*fAxilF(<ON?{w6TxFG4)t!Vkc{i3f3OlV~uCebb0uS={o
z8Hz=8;GEYBQomg%wLRSI?5z~Vd{$a>Oeg;%{g>)Uf0gM*k$s6e8wf&(4*Wi3<3od`
zhrBZn8}9DAOVWJov#<p%ANX~g#f_7;`k_<43_WW5)ACLlj3PSl`HM5zfbsMerXtsa
zpQjr>@c2|CI&jW?`Em~)YSr;_kM4~4RTk|YjOf7qQc{@n%&KI|VdwJZ9-6+O=z-|a
zL$Bj3PPB|(+?v;axG8m)ef#8FKST%qz4ecoOD$g$qDRGimKaCq#FtSW`0s!kT+0v6
zDJo_iGfjHcQFQKJEMh%yzjS<;rY-MG41#qd3DJS);fwKo=4k~~`Z6(R4+!V=l%eLl
z8Or&Nr%&0pkVMzMyWhLjD?*eO5bJ^GPp-;yN1sbePo6Tp<yUWb$5xN%z~i<0tKWUF
zAZ0S;dvmDz3BFlW2cCx?_IY&P_8PDf-rUYKl$u^zj93r+|DHKpLO(cF3T%3KYs;<8
zBci6L;{}g<Mpn`6JMRN*uWDO-CeHVErz6$_=d4&iUaP$4df(?+iLUZk;j>PN4xF>x
z>?y-26}uE4@pC=Wd>O*14iTC^X?hjgyzIzo;Jky{FZg`198)B?;-!9kI_8MZHil2k
z)`<Or9Thc~QjYS^X-j8bEtW=F=m=pt-)VFLFLZtE6)6aRI7GW|>wp;AIuDPRr@_Kt
z_u|wy*7=7I_f@aXXCpdrzdE%(`^&eFf40BIyq2fW^VJE_f$Pb!JzJ!q!e-DkWk0|f
zt&}g1=)m<1z2Yr<^+ZvhpVi9L=ID0yDN(e1;Nz?4y!V6RKygc^nM+?@2l8=sAv$n9
zSH3PYhi`FFtJW*gb=f_pl7#6fzC1Zm##T3fLG_z))ZHONb4<rxOQ+1Z^lK^jyBlsy
zXP$M>U;w39+hF=Q=Y4Le)GiUUoZ)=BmhW8d{Lyw^IFG|gJ+6&D3DIGLj`s<@eKCp~
zdq}?1EUzs(N+|<~4*dBIdLx!ob?XlXsHUX6wPAGaLhToP{nItJrYm%9-usMD*r)96
zdYsva^}zYqPth>QhV7KQ`Lj}eXVf(bCrn3oa7g^LZRa)MNMJgl5-laxp62zy85PDG
z_qs8KnvZ(#9{?vC(;@8f9KM!Reib-Qn9k=<1v{@$ZUq5H0@Ly6o=H}1reX%ps1RO0
z3M#_4Sp4^G0Zuli!*V#B<E}`!6>yv|ov~38?W{V%4LA~*PLrY1t8LzDj=&ie#LFjW
zWL#L)<(m$0vN4_Yto}yTu2I^&X}0rUtA+!dFr8CPbbDCdt4zF+SS>0$SrsCI=)miS
zM~}&Z1#Kc5a25p6@`2B%)9dI$+)w=64V-#R=k3N9`M#gie1Jnnbl~%8d9MG<(~%i_
zM=$stBn3&zcpy4(KCG9yr7ML>hcdeqqsu)E3N#TNcwLP$)18hJkZ%DF6{hnkoc(q2
zvxV!xspm%<FSwrZ$h+N2ChKB=6O8GY9{RQA^Y^G{z|q8X?!Hv5BfZyU1r8OabLHcw
z1es9YW-x#1`Oxy&0-fKN=<*9Sb3PM`@8?J4S!NN^5$l0pSI$*jOANnnw@Y~O%a?EK
z+_NMQ#~pqhr~PQ;T>PB~J<6#l>7z6k=(rIbN2p&BBH~e^$L4mOdqme0`M|r4fOy`4
zuUl606x9+sv`LY(R37g8*s7@z9r$x`vA<3lrpJqM-R|!#7EHC(LOl<vK>c#DEflZe
zd=u44UB2p`F(N_6yxs^{3AS|Ib|LJFfQyz?;Fl{TOsD8)dcAj}pCed*2$+sv8&!Pj
zV0!mNOlbCDgLg3$#GK*deI<ea^gzEM)h|)%-|<Y-YGh0&D~<emUYk`0I3!Gm|NPB;
zyZTxffJ4A^1QtJE`Kb|qA2<}u>x4u>w~@~}o?5^mV>(-wt<^>kGi=r^(mF<rH6fBP
zo%~+&mVB1=7rl&~MFa_)u>?%#@mI@96&cR$B4@YE)jg;_LqWVwfagz;=1m$Whb8H?
zQ9-}CGyNW9OoxSGo#&5{#|70XB^npwHd2u=otEJE8s52^>yCyC2RJvkZYLl*@O4Ys
zejoFyj(1hPUnAljX67AQ5!Y2XAIaUSck@}i0>Srm#bP=$KFYtJk$m03_jDOyI$h<h
zCzMlv-raAdpk6!8T|~rmn3ggx7xGbib#XAf-0$<QwiWR_2<Ow9vWJmr+ZKg(CK};3
z;&z%?OsCJFGyX{ppDlRZZG`Et{z&L|a1h`c+-F}voAM)(i0Sxqss?{Qb1y$r?4!v0
zT#mL@#On<>pDHn-UlQS#)Yn3nf4o}ey&a3_!0(5bR#Ft7pV+VWkE@M+Hu6KSoDd!O
z`gwJ!Is49*Jp~8$(Z_Pgl8uZI9VY0!oMOf{&2RkRy`-*LrFfcoiwB~^13Ayl`q?h4
zg_>one|`IY&q3iSL<i0}?x@8Q!?`?<=-l7g4Id0I7GpZgTa!**UUYQ;^BJ{Ya6R)P
zDpQ0HVva-NO#WY|^-jqn)&q~%ktZqh<~!PcfY0-DBRX(B%Vp$qgxe#X!0F;eyMBh9
z%P|R`CJTEOfRlvju!s8bE9-sxv90c!sX=NfhdHLx?Y?_c@Xcew#IRx8bKEAP+=veR
zKL3RK-P_8dTa!*a-&`&(|3uCR(Sfh$c?6DRG|Frl385sX8c)_0Xd*iB`D-xlc6e81
z?8ocUq&?Ipg(3-v4*dUmrMvmv%vRSK1lJx*y`_KRvk;;K|9=W!?Tx+5?4w#9@z+U-
zAGiHPb>R8aa5&yzcR>{E;^k*i(ya0;1Do;Yq3hJl(e>gVJGGKJ_Zj?JH=T~?z^`|{
z@Mnaxe9`<SuPP+2d4af?gy_KQv!?DBK3CQW;n{W?2G6DlP7g!}&WFqwn|@R$HIl-3
z!QD!Uk4+xYf#*+Oi-K53+^B4Vy5L}Hp0?xy4_eOf`y`1Q3XjGgIVI*c$IE0h;u%dr
zbl`q5Fx?%v8BV{Jx3ZG@EFg)7jOf6BpW>n^I>m8J_P3W;>3e2hleg7~4xG=`$Q?T>
zW%$N?JlRR%>N?E9hz^|3vd=FK!2{j{!@mxGRFZhfY=r2*^-LQ{A82To5T>h59z6ef
zMSvU8fpea`y>7UZ_V7ccTc7nl>@3^a#f>)Za6Q)w$@fnWEZ2T)lx3aUo$sBF=>)&I
zLate0|9bK*)1&VfLIs^Loo*&8OUM2F%JpfFdoQTaUzW#oE~|KH?PR<-DzN&4ZBQsj
za)ApiA2{b^p&w5!3Oq3O4e;|>eqQsk8qtB*)r?8q4N|p-FW*ztOFt7IF@fs9^*H9#
z<SO4;ca!TOizH3Vw?lr2^}zGFLb{+;pW|Kw<(9Q@PL1zI5~2gwV{!FMM4gN)V_E!E
znCkL2Is&GXZBrF-f@v51mRBA|j?q77DV%uYm1y(PDO=*=C7Tk@flrB!g=9?UhSt>J
z#d#r#duolHS9Mx1lQ5kfnKYZNRIhsfJomghEAY240nvev(|>#mXZ+dpp?JTqr7mmo
zl(be3w0z+6V5-{8Ochlz{ecpSaJzj*4+YVIKL_$YZ?nSu`xY@4x#Ne+=3|#o>w)J_
zuG>{oNwglTAZJBr*^_fZv557+uTvOvh6Nc8T(v2E?CmYmafPNB(Shr+PRP@YV)s8u
z^lWNM5og)qf#~o;uXnbI?2Fu|_3cDB@nQwlNKz{m;<&^0w0T&FD$F|;^}7gagcX+k
ztVgT|b}UYB|HoHw(ptAW@o>JVYCIW?>AdqvJ^hY~qieFHkgnT!d!HtzvoYp%K&KHo
z;@#u={!ho89H}s!(jHP{$h+-RkDqpYYWACbThESmT)_F{1ruh6pE$e*=l5VtN2<Cq
zEXUwLJA<xKtB-j%MHA71*XLX1bF9BCRzFv__*jOXrx_q3I`DCE>Qn*sz!4AHyv0^k
zmS<Id@`w(6-5Y5Wr#|`R(O8i4?knpfd+P~^4!n+0AOGRkXZ&{h_AkThW;;%wZQX=6
zUhwN>mnfUiBMRX@LbWUbdv1u(R3kd@xMw)l#ee22tq5ejPFqXwsO5*~z~dz>A!=|@
zqi64(Xqvt9n*=VAFdgorIe|6Tu0H|C1vjDt=WN_`QS*0X8}+b)y2o9M6Cnd^XgR~L
zbKmsQ8n$MZJ_W~DE2b0CocsELt_ml3KcODcfyawEL!f(vsyh%k!I(~5;*q!aW1L%)
z??$b@$!dA1iRi$`S5=PD$n2!PlSqQ^0#U_)#~RUr$IJ1Wa_#b5UPC^;Zieh_gSQfh
z4m=N~T6nlFyq*XHpZi*1MH_cGXM^3TZp^_^-@aUkG*jBTl3I=Fuo+1AaPl@Q1IG{3
z$u>VLvYxk`yl2p)HoHmhmMWqH=PZ7yvnhcxcY<-#y>oZyMBY;&I&eN>oti9M@qE;5
z0=qlZmLA&H6VY;p$Lod%Wjt)-_3Pksaj}RFT#tH4#nka5`FgCXNos6vXZ4LRoo6<)
z&v}ET#(_h`bO<``jhBl@M>_m7o{DVt9d2bo%Lg7W^{3iTF1Bblzj~^!Re5}pISJEw
zR6sdt=P23^9BWL6XX_@<Ohx}_;7DLPL(PY2e_f4u3!EutynGUx<Qgp%uhask8q+CG
zp+0<NXKe~_f-#-WY3~|$#(j^0L&9{7OwKQd_l(X1hluH<M^}7p4Lb4=I9*J5IX}75
zGtqvSbOAW&m`>i7YlrO%R9*qc3Dfa!C^t*t<BtN4Jf^eE)}h>AQF<LX3ygUASlxS^
zUu&RP3Y>aOr{?QiT9y*kF5r+colD`@UfH+)EN@WUe<C5!nAr%?f!F7f->oFI?o=h<
z2w^(YHDb>cD)@VVGsS?GGhENvjiEaayohxMPCceGLODDWoxElaoLEe!NJ5u!m$NAq
zaI7(%a*s)J40)guIP#cIJH4sCQpR>&;80;Yt|~kq>GXHi0;iQ8Z@fH;XSI?R3*G@I
z9n(1x*`FyKvw0FY9+(cn+n`jZj=vZ<nwZWx|8f^KZf$Yk5HX$Tz}gst_v!(_8Q6%I
z^XW%ES-*Zp8vv&m({WIHtR1Pj(zqw(+g7)hpiRMu4t(8mFyj0t{}oDSp8B8|bp~Gt
z3De<RwqqbAPT2SL|H$p6JRBz?I`H-3jXfIkuWluFw#Pl2NWMbJXeFTK3_F9{B*h>6
z-gg5yv6xQ%`i!#gYQN@yV}$7x?yuxcOzdF-4iVGQ)5v!Bsi#i_PU{A|e7KdiF7rN9
z6MvkwZ{ut68o^jh=jeb}OO=?WMo2~CG`&$GrxB)O(YSAQm|fHRL-GT{o{tY75fL5u
zytCV?ug+ZNU`f-!B99NRjr#x{T0Zb`vA^%KltT;8k?CZqqsj6=E@vY;@H{;G>s<LS
zCu7ZaceirklJR9HOlO_f$DzD$3eP}25}1xny5+SU*E^~_gQKg{=Im~b(xT-9_bWs+
zJ2>=3+t(Ky1r=Y87+ufCbc84#F<#YAD|R2fQpA<5>E(p!nC{=};$5ts=-FwsYh#MA
zu>_`bdnEVw&R^-{OWPi&Z;rooX_N*ppRaGl-g-wQhbE-Dyiq>x*prRvT$TPg|6BRy
zuC(QF|8&#9{Z5!pO`1TCTFfQYJRzGyEK78@5}3}}c6J5+PWnjq8&?LUhMv70U5}T~
zknbi%`&NQZNN>A@B;$l!Hl{O@9&+cjBkfe;{IT_#AA&WUFrBSYF%K>~X5Lo2aOLdN
z-FhSmL<e3sIsz=NUNdwM<q+c#i_`r5YHA&3KA{gJ1ix}5kYle}_6Qw~FUE9sKjgKD
zm<#w3BlhuS!twQM9+(bmm3$EYt%4+e_MUY0Xuq@am`-6_GT(V}^yXfJc&+gbqOw!e
zc=?zs_7tRCTnM_$>!NAt+m>65>F7?%iOKF<JRTHe+kWa`@NExFr|QL_pgV@*UsS42
zClYOs667%*LAH0w5ufv0_?tpPWw<w1Oi|(Gvu!mir>BYE;r_t!MzS!^TrsAjbA6AD
zY|rD-bW&}fgy+^59+*z}jfoQewGq)%*(5@h-M1BaOs8-=eec`MN;#IVt52(xTRNxK
zR*-%V5k7wvufMf2LSr@7(X}Ow-h-{N7}Lp(`MorC=YF9VkKRqW^`Yz@n2u9Q%Qc6q
zIU}2_2r*V)vi8ekI-jD<?>!YEbW5A0QK;VtY?@ld%g27lx#9g%7n7+@Ki>DcCCIiI
z)6p=V_%{16`#~m2Yq05bv!(~8GsiV}i7+<dX=q`$@vL*Ip**IOufrj>X<#nxV+^&%
zF2*}nQ!9A+G|bD+8LeJE)way$Ie5-*xfs*=alu7Am!EM*!yeiTxs1U_JrEuEypzlw
z>#HuQ|MC<0<t@5ivW6<610NTk4#pW3eeo=e{^XaLmpMkgu#A__5MSDFsi!CRee^vj
z=I+B*Q;q4cGCpf#F4`%1(wOVyjl6tCKTJn#ewb_WYuIx01mSdF#frQtrn58WajHO8
z&;}j<i$}t17k@AO#>?lF>2G?m&cVvJKc&8B_p=eIF&)uc0oQXM+%4zl99NRMz_a3q
z=)m)bYPll)om#VCi}q+|C-24)O-yHGt3%k-{mD4vr+Z(7FFd+HKy=`Fc={Im$)6@1
zw7{V(;pOa`xFG6&rIDZa5&gi6xx21pL<i2t>ZiC}c~1l1XM+KU;_<CiMu-mFuh&&>
zU;P_sZ|xqTYaNNdGe^X9-e}mY+DR224vTZnpxQ>Wy>$^SAGlw8Pd`m9xo&iw$IOq-
zQHpsi3DJT3l_o;<yJy^o&e$m|-C9*h$Q;w*Pdly6Y{|KE^!A4~?_(Ow+?bA`Osv+8
zQuZFkUSir;PUXz51+;wNeq9?n7cML>B7Y%X@TO?(ICT=HqsCGc(GpjFxk0#`l|m-F
znqxX0+iG4iOT=4AB@eeU8u%}9V>-7Q#_pbJbq}qp?J#?CwxhOd9xtEjb7q=MOsCW@
zADlTx?|3923DX(os;Il(dqLBGtIak~y>o@;n9kRMEBfr4_lIWm(sLQ4MbU9%I=ULe
zL@j&e`^y)US2m|S+S>ICFCS_Cp5jY8Ka37>6|7y7ERjyabR_QgES~3cUE&ZYUhRA1
zw$2>W@nI}*(%)efEydAx>W*LX7j8^vlMW023=6xORFdp%(}>Ent~s=P;PoeGkBn;Q
z+;CTv$l%TMA8P5-5gqtA4fEu8sl0HMoh7O|MMAfa%No<6H5I-b6!GYTR3yWlS0ePe
zLYU4eTI1u&t|t~b+~OTRgvyo=%%bH3_e+}U(DbHs$>Nuvt)0%S6I4vcbtImN^IDw?
zbdUGxSa-=##v0Q}>Z{mX(b?lFP+Mj|W96bGgz223q2J^BNsen)Y${T3Mag{NCtf~5
z6T;#;BG#&xuZFs?zaKxGj_Kr_6C0N-e3V7J#5SxR6T4!K>0Fz68IpBO!0b_P2D@~|
z14kiDXGf8u#+SE_%JCL9mB)V>hz`u)<r7IMCUyN9QHs4U$T#gg^fMjP*(m*UI*R=~
z$x^#Ki+aODqBW+I(rLM8^>O-<F9Yk^HS$wLg)kk-i4S5*^)Z&~sgs`yD6sArn8wTJ
zuC2Y#wx1y+!qUE%a#5ov(=i=G!A-~2Hbn7D+$?<mHd2$v8q;xGzf3Yb&olbyl6a-s
zsqKbBm`)<gWN*`Lp|<v6#a}Vj)hYv1c=_=E==(+NF}d)IKScGN{6+P2OsDWkwvhaY
zm?3z*V~yy*pQqg$PBQyBq>@fM>}ldc^{R)2=)mjh)`9KER&$=5_vb8cyP08sgn;Qd
zs0MYLZ>tR{Ig=viS{kNGnZ(O^zgf^og0tauw;9U@+A}h)WK2ieLw@KmvF^0Q$Q}8t
z7u~5OOs8Pjhh^E*jSjr7Bp^EQ@0C;+H%!dlb4b_vO+IFJVmxW|2U<Sxb;5*Gntc5h
z?q=}%v>4HWKOfFqCE9)VoZjo8_zb_ezUpZ*q65z#xyO6+tq&P%hB1||9M`o;B_TTS
zd|q^TxpiZfG_Q$mk#9~3-xqmA2mXIgjkalW`6teV#&hSNo=KZIK!xbQ`JCPPhHRw8
zCfI7PmzdDV*46bLZM@)oY;GRf{{D4Q*|pq&2=?@23rUzxjPa7n!ELIB${pLU`n<Xv
zYmVr^pAWA%M{uSS&@tI5xV-D-on(0uq67Eq$m_eV4I6B9ezMIgUJH9iN5FIh@~<{A
z%4R>J;xlwk<;q>8OyK1#(`NYd%+(`-iF1!^)g3nXkTIR`ljEc8KYtCVI8V%G-tRd;
z!gP2PehR6EuGcKQV7Q`XllYT>=)ix6I7ai^J~D)V;b(Z+E01dVx2O(0Udr<9Gi&L4
ze>~6X*x>PM#~@`KFXtmal^!#>y6}JJ3p0B$8xTOobb4MaoVOa4d1Re2EhNa;SV%&2
z;J<6zG0ObZI&r{FL~n{O>F)F^BSZ&YSIeLHa^<-8)l1k@eP87jPvS;&;Pt1_WzNXi
z<iHK)A+@)U{dN|Pj^X7Tm#pn5=-VD}QHF=vY~}o9Hl~vpQE~Wl(Sy`S&(EFu?K8OE
z3DfBap+EY4hc|=7J%JnR1I5fG5FPmM#Ct3x-`!11|3a}L+B+w`j59}c;NwEEenZgL
z$?eJ4NCUy8PlE5EI`Dc(QqHAzVtny_@3Z?yuQwTokr3-)fc}2a;w8^v?bN(?L&y7*
zp8F6pQ0sx`VdLvKx!ZRvD@TsG$(hJHwFn{B10U~-50A`}-sy1eiMP+wKgV}^;2YjN
zWK8u<XdE+Ey2xihcJ%G;OviMR1fM5w<z!Y5SqmuE>S6m}jp@7!Rvb`>+ge+EeJL?~
zPq>N@rgQPxfmNxgH1Z1rQm)@y`fmfHc=^OI4&2OlkM@5e+n{qkWRFBTrt`(L-qmbx
z+S%DO{tx;OrL(Lt9dAavADkDx#iV`2McQVU&j=wp@H{LXV%A@>WFNj8?*2tV-QRZf
zD_%ZztS$o1QLnWPOqdv7MB07K#&oW!*`Ce(T{Gro?RYxzrc1OFro(#ZNXZB0b-X8S
z9ke#sIq#D|bl~gxqa7Rr{A=1rnd|8%ehy?<5HOt^##Cxn8m}C>Ynoy#-Com-j-cfX
zuVd67io!cJ4!tw%KJx9wQ?L3iL<c^9$(%{@*^uyAQ>2G(&MP@{Z#Jg$Q!DjDNsi0G
z#rv_p^Dlh$@k4aroLd<=W6a8KM*mq?5gjgQeeMiN-Bj~2EWpk)>zvRY0VxWi1OGk#
z`3Bj#$+<|&$+D_m%R`O4^@tAqy+%{I?KQ30VN9K)X^#`KdYKmx9k`xa3-3kNMVVW(
z5<JIEIvyuXAv*BiMb1^Uy;<)Vmu<0fe}-$#lb?t=pF@1S<#s#dut==iW}wvg=^AQ1
z@H~7kT(t1!)2A=YMYUz`p5?Bg<_xc6RFZ2Um2`8KNp+ttSH9+@AtUAkU$>-Fjk?a>
zIeR4frGnc|sVzm-hz>knG9>|YyzhEy`}Q#q(+^7~6(c&V(0p#(yJD7E<Ta5n*ryhG
zkAE38XSkm0$`NxmEp$s<+8g%Yiaqd;zW_vAf8g)4y1KGIS<Y_B2VA#MVa^|x6T$?s
z4>Ux|K%R>D?Rb>|#CqWC!w0X6j>NVOPG_vESf51<Ge>pc^{3kCyy<b76B?|AWs9@C
z{!6Iy5O!n>rv;w(WN&P4-f=^DCd(ilv0t!L=pC!KE6nI!v`oV|F}~z;FrowJv-hZ+
zRMv2)d(+I5U94r#V^JNr9^MxcK@Z7svEVw>8nGVuI4yMc$r-pD8Sx-M>6KZ^w;d9Q
z4m_V9-HdX|{oQGMsOOPLS%+@B5TXPB-b8?n7PY#5kl)yq;qN`O=HgC>4!n*f?Jbs8
z9(3K&KnUelRez|gis-=k{F=C&8E5P^z+2i@6W;x^jSA6$>lv6mY2%yM9nZx?AIrvY
zdZBd~?RbahkDsGcLU;99nof_LUu?%kvrrv)y!M7!$J-kS=FhyQ9=4*<xko{)2Y$Vy
zJomQDu0oKxtEWOsWq4ehjOjE|=Uu*TQN|y^nsdr*quw17rsLsFQ($<R!MyD5l63#o
zUIPNA6I?)e?|sPi<8dLC!WR0OZps(5@q*`%ql*L8?UmfPj_{1M$h*qqSVRZT`NY;6
zvsFWlI+1T&R#$3Ft&A`oCaT3YmgQ@DMuJ8uE7?~|h=>l{F9o({f$qn=TMoD+iR8+S
zXLfx?%Lne4Pw3%NR`aiih$sED56-`hNWyezW!_ok&rb~3(d?n~y27#B9MkzF6m_7H
zAw*MdIa(t+<*GL~rgJ`<{qrx^P181UC+dTGwI;fT@bbB_6!e8zSU^&>eyXIu(^4`C
z)A4(zUo3ae?bcnFBZ-~W6+-5ij@UQ78JUQ>F>13AiBrMHhq)0Qc>WMl=k&%dE7@&6
zV$yk(-fMhd5G^0rF}n9S=WV1y$csZ{{f=e57ukpo{QnLm)=ygw`qsz!F<l>b=ip2V
zMs(nMd<%A1vW;2QM((ii7c@JnK*Ds?eT-P0_(VSw1|x4sbwxxFF`eB?hop9RUOOP+
z<Icpax}&sf04-<uIORS&TcD>TXG<#^xB0|Dj>IHH2hQinMY8#iS@+F*Rb9^y>|k`X
zMs(ow>0#}e2aT2yobH@ajzwwd7v&KhxE?#V`mzd@VV?_?Ee+*iE<FpM@bbBEaxv{h
zgPt_`kovdnqS_YKm`-o^t=yLmi<{;*9CY-^iKX$wbetb9o|cT^D$4LSc)=ie+g}ya
zsZr^^WgSPW8`%CPi)!tV`$9ijKJf8HxpwQ>zFX}N6>6_$s8zX_wPHHG&v$Vi>ij^u
z_+&GqT|2|?Y(xhhcQ4Yx&nH$jLVpFGks<F-5c9xvo-z~=o%_FVHg@<^8MJr_sv<h@
z^}JVMgAuQD?EUx4B_Y3<+<mzb9k^dTA9!{KS)UcJ?sEF!{g%3apbu@lU?-sMYfj-z
z<nxjz9KJPkuPd_=9eCVDm2XCJrfYY_#hTtXsPQNZMs(nODvj26KV(bF<#ZL7iX*Y}
zStB}dzgU*~ij9O@Obc%fos?ozQI^1T&YK0ti~1k(DBhm_d9it-eySHQ=l9=cN5uF4
zi1S$)y}=-N`cyTh6F4+u6Cv{WdEObJ!qeLVeS<L_e`_Tbh0&lf>fDzW``X)rNr(<S
z?mTK4UqaUcg~bkCP1U<|k|c!az~>#-o6o~oq=#h+mP$%;?>~1N=t0XFc6!f@Sb3l9
zW0oDK7utO1#nW_5hrfWPj;Yc=!twx1^Z<S6duvQbnCxR*%loSOn#Yjg+^<)DLYR(=
zn+9K+zLDenkG-d=Rs<3Uy7BU{E_~*(a$=FkQ@+~!RtnSZbWDdeU8mLH{((#ynt-3R
zN+$%YF&(|J$~A7I$JB8<gG0_}KP(l(bk0ogB{pj9=xrWqc*-rkB02C8FP~1`@s+A1
z&&$!YdHy3`N_x@}9eDlGmu<`}dm!1utLA%Mvb1T^3DJS)^NZKV^(<O9#oCr7rBs%>
zOG#ilEwL5t+jSLp?z-uH>b1bLBcok-`9%4ozeo)o_{x6g%B%D7iLbIT9jP1nXS(-Z
zTxY45cHTuJX4DDMfpg{!jyQ2?+-b3P*F#bF^V^-}F&#tSy6s`_y%zc$J0myw(6=sh
zqU8hE)5ODiXKz#OMHZ502c2nme?6iDudBvGSyj<xRh6q{?;bmUPd%4}=)m<T@UVYh
z^sad9x2rlk{w~i;YfMMeqs1qH%{;$e@W)t-aDbEqq67Dfymm!BV&&zJFJ1QwLe>n^
zs1P0axacNNWZiYQ;#2aLurj`&Y+m1iHeRrkXV^O|+3{^(qC8=OsPWb`7}H@mHuhdf
z@rC(eVz!;4iM6UGrn6N{ZS{l74!xd8uDjcQ9^t3LbP{B3hgY>X*WZbu`Yui=jHv&B
zmk*ByN1%H0IU%je{*R69f%L(M4t!n5GPXWG-BYa2Z9abUtSZ%gYeWYgugi;e+mbVn
zJWF1lc=TlT3!@OC10NUD#S;&c14Y7RZ_zr6ZSsm6eUF#V)y=CroVTXmzEWt?lRjLT
zkd5fT^~4JOa!It5F{&}>$?2faz3zeN!1;W#eOEH6H6eVd`F+pkgW3<}F`Yr-)1C_j
zJMWjQ)=3QQZ7!O6hnJ5^iH`)kBhN~g)KmF0m7}V~hz^|3;q{W`Ct1cTcc1;#H#b=O
z-Vf1%^Vtw-rm0qY=M^dRw~b-vjUTF*PQ6G*r<8p&_Y=dy1g@?~lZAG?eB}G5wK67c
zXX)R#UnnFc&QxPMOqnNHerNKBmDLwIOdnKK^FwstoW<MKI*l8*h4^$_S~Z+A-l&P_
zz&T$%Khj#ul&SN4Y_D@+dprvjrn6&zw8x?5(H!fvo2t8p_w(1c;pME!W7i(=A~w;P
z`f9<|N7By0hz|UIRA_Wo-3fcSOO0%_6JKjOyNoa$*RNxyMkLXVABDGVSg|`*FNEm8
zIWO{mI>Nkkfz+?XbmYa@K>9!{T0Zc&J2{Lh)t@Wen8!pFR=CdiRyLvo*YkCTtDlF~
zz~GJ0!Kk&#<KLVR9r*J$kJQ<+?v&nJe`S4P*=GX-NpnO8u4ln!Q?#wO##)RSbA&E)
zbq+VCLyC30S#u-l@W<gz<6i<teY;xFa)#?+5l={dp?>`yN7fy8rJ;D{Bur;Nck9wF
ziNZ)R+OW1Kxu(PBn9f+8=BD(xO05W&;qTw-8{@bU9eDoCUDSKxdouZe0ISJ!4zHHv
zfwy@1DDsc9ls>LebFg`=@cQGo?sQB?(}(zuNBP)@#x|XyQj)odHKGGwuin=GkWPp%
zNj<<)p~dmquv8V%fydo&qj>o-q5J7$Yt4b{w!S#F(2SN3oHIwhBd^hT{L0TS$<vX>
zF0=KR4lz%0t($x8xQUHzgidH%FB#E+`;~2GE*a+9-RU4U5_M!a?i>lz$^6}|tNrA(
z++@P!x);xXy&@nwa6YwsZti`vA@`I`u9}bYC<wN`LCYEL*8#h#1I>XQR6WGipil)<
z(O5(Wu4h|9s%+?$)U))*So=*k@!T-SbjEUfJeqh?PS|&Sjq`dFr67dq?0vQE<Dk_8
z4$W`fUvnII&X2xE%LndP@k-xW;YP>XcN?56Jzl)iDn@kRoUevf7@2wLawmu`PSU@g
zWAH$9;PbL!`O9F(p3E{r-p88_!t8#Uhz?wjep*{UWkfbr{Dl2DZFN>U6`}*@L%A)!
z>4$Sb@`=$W$vbtHhbT>GIm7iBP;0p#KU4ETMzYMTOJJ`W8Pj<c{@7t=i?lTOo)Z$H
z1Fwfd1J{o9^DK@Y+C9SiSpJQV5TXP3Yt$is-uA;kzjtMz5iK9Mo|*f#`?OhBX8C^5
zL_PAgNUlb7;PF}&{YoDlIwi`q^?Tvv=kZd(m=1733w^Bc-?j;I0qx&CKRABC{-A~b
zZV(g<?*BU%?2p>QF7V;`0=&Pv9o+w)ZNc*c7qp-b&;l3E2i^wzffjgR8?@kd(89Na
zZP0=`K?~mww*S>Fcs|h2zuE@R3-W?n_<pbrTCo4$ZNvM4{r}Z1c>fBF4`~0@&-4F#
z|LX+6d;_l!!RPA1?f>gX|Mk6K9)XtqKXwH!xc#q%|C)P1J@B)^x5L|iH(&qme)#$R
zySCwe{dd*zuX^79>i)o=2mW{W1N0AW|5eZXuXez34%Z8||JBd;f4cWqx&77ca2|iP
zE`i%Y3qKCthX0OT{y%mA*S)|2;}0JHcXfitf&Kqo?SJ-pz;O=h2ixGh3Hl9hgZjba
zz&3on2l52_fo-rKcpPpEkHi1217E)Z57ZByPXgTWA1!zsbn~B0@VGxW{15pD7!NS+
zphYe3ul5K11@jTKzy<gJRSWM29uIN`^Aha$pKZZ-{#6U+C-;BAU_bEu;Q2uPU_O94
z;rst8C*Xqp;caj`cplKg&+~WN!1=2dJRWZ0{Xsv#dH`|)b%7Q*;PG(3;BAmAxE(m~
z?Z5*q*blVec2F1a!0mt60tbFPxE(wmY=aiuj{1BcANcXW0k?zw!0os#s0;kP80a7D
zf#(G+*bi(22Ywvb{=56ZexL>83${TEJ762M;CKTqc-&vL;BlZI@P6>^@HWT+IN<T{
ze(*Nf5A^e|T6moQ%K59?!Sno83mykQ&tL8Tf9vgkmk*c+ARq9)0@(h~wqRVq<KXT8
z-SZr9|5Yuh543;hg8e}Icl)E>504YP{dW$i2ef~;|9|)Wf7QRgn;(C7Kj;_mK?~0B
z;C|4edSHLl7JRP*7!S~*KK{RIKY0Czx8XWKp78Der)>Y#Jo%s2Ke*1nTerdfp#4|(
z=U+X);r@X4rT^7+|4;Qmp78M|@?TUic>e#Qr~AL=X*m9)r~mGJ;p68&8!&iX^{;x|
zzq`Nx**gDfe^4iQU*NCy`*+<A&cC1q_58b@@BgbV$mQ=^&_A#ryba$Da{s#)tjpl_
zFW3e?X#eVVaR2{lE$A<3!S~UD7G9UY?V<k>1ZctaGn^0DpZWh`?=1uRNS1eD+})i7
zcL)|dxQ9T3I|O&v0Kql5yAy(i;O_1&L4yRB;1am(|7Gq6?&aOxvq$gAr)R3Vy1M%5
z>YkpS`N4w%V7vhT06sALr;7j&5AzIIUjY242lgi$d>B6<1NbN1{b6(9d;%EXhw>kG
z^dD*nywCWn;Va%dc!+=2?>~CH|7<*eZ+jrWfOY+0e;-?S9<vAHdsq+919=U||15mi
zuZQhERt~IZ5AFY`{Fq;$K2Q#{1IR%6WBAYxc+Umc1O5Q{zZG%sI}RY;y$m40%fs@A
z{63U{djBp6oO1x@2EcxR=ARTG?H_FCA9eotSiS@80pkbAkJ$s=0PF$zAp-mYdO!vc
z(Eq&=7*B$G$H00@cP|47j0b>!?>PRfKOjGWzXuA)+V_rh?~(Z)fxm-`^`IQ+4={ef
zynQ%cfD9nO)4jWY82r)k2ln;<ut0t}{>8vA27WQ{2m|8x3nPG!nEg^eVBq1t@uB>{
z{FnHPfqyCkKt2L^bH7nq1vX5NL<87AQv6H(U&_Gm<;{O7Ex)>b&%hsjuKJ^Pzli-~
z4E(qA37lI4Y(10#{ofmb^R>tP{<GqEto^@L59AYozvl<Adx*bR@4uxSI0pg{=r?el
z1<3y@1jY?GX9Hv)J^=q!@%_8D3x6LNaDEB!_Ap+6zsJfS+W%P@XdkHek7@_-|L^|Z
z9ysTH_?YvMC!jw7KAfL`9>Cu#2kidpx(~$vSiFzvfqFn35Al!254;z7_#GT@UjKXd
zJ)r(W{vXEkm<+`EuzkQD9k_Ua4|xINcwh$dm>#eL+6Ux^^Xcz>UJtyt0NQ&vjt}Dj
z))T<~-(@~N<R6Id&*DSAf$yOn%cqC^|6AjD$ooV2VLyPl0R6+bACBAa`2+m?Rs37~
z|5w|6Y<wQm|JC*$@(uWV$UC6_XW>7pzrPp%zp7mzuE*McOb^t1et$s;C>}u|uOHqQ
zfcwG2b=2U#Vc`Av@5S**vwv9qupbZmLw4`!kKR9k@2dFk>v7y8u-*Z9um0ZvtTRA7
zj1TJlZ^M7l1u%|}HUE3#1nj#3e9VvPeE~2I06u2_x9Wj-0p5Z2=Z}sv&@SQqh4noG
z_ZQ$i9{7LTK>h>x*g6RK1(4)EPyiu-zyX7M1oG-3ez`AqyGNj100B1-Wk3($Q{dtO
z0_{DV$ADSXJ;BoV3hsMky+>eQBzG?Z-FtU01N8vhzt_Xw8<s!tb1(j70OEKoKYlNd
z0X_iy%K`mz@QZ<84E)O(0M>=a0s+<wp!}f>=zrla2L22KzjuHBJzsw{5C3ZWzZc(Q
z<-q>=vGV^kJ+RMwEN-CuF}@$$hXeH<`hDo<vHFkcANu<x|6<@51HTyfPh;Ts_HDn{
zpTAoF_x%4V|NmzIIA;K?02$cV0OvM<4A=qqm>wwqg})g1zcKJDZ~kwr{O9Zb)5i5b
zE#AMHA^+_D0_XHV+<^QG|360lU3hr-oD1v&fN=v5_?`!N&-hqAJ$ya}>H~V<eGZ`i
zJp|4x9&7LS>i;VL=P&?_53sKX<iA(zfL{RrUVi^y^#jZ|0RPkb3FH%i|LOhtTjK}%
z58&VG=Wng|uWA>_V*vlw_<z;=_hJATPav-V{AWe^d+h=70e^=JkpF0Wz`hB<KU(kK
z&F;_k`_IPz*f>0<|Fi!8U$Y0s1Hix9KOjH<R)4_zE&%^(JpV5B|12MW_W9<I?q{Fh
z6Oww5WA_L=uL1Mq%e_PL`*J|O7eVyyKl}&E0sS9EV0=;UE3n+7-8}-opW?ii0seq~
z0`UUh&jAR;58!=u5THIF1Lc6;2`G4gfE}O)e(wMvP#=g3kb!ytKGXyL9z)=JRiK>g
z{sQpxxAG47`-Q(4_;+9+=iecSUore*;1>hG82H7&F9v=w@QZ<84E$o?Kb!%>`}p7A
zBk<f<axV+rW6(Xmzem6hz<c%o@%#+DcLx4`0bmb2mjm?x{Ik!iK>Pp#{sDiF;re3*
z5A;Fz59|N}#ovGj`Fq8~a=`AdBJTqSz`4u=H3)DH0{p#*hvhgA6c2fND04lq2Sng^
zkq_;Gau49*9*Z8x55>p)JhTI3pnX6F5a8uuInZyQo&Td>55^JqUiP}jv-<{s?*afn
z00Qj;_*h;8<qr{<7l0n{3*bY44`rYpz<c(+0;ms^12}!(FTf8l4`lBRes8>J@9lu|
zD!?y5BY=SZ_YnVg41n=`*xv6{d$bsc|DnOd^98^TIA5i^uRwW^57#N+cd@{EDc~PC
zHw9z>0saB`kK*s~_0SK%-yhXKv;*Xac?yj4<^2U9Up$ZjJ>chGg^h4?piZ+nqb(+F
zObAfgr=r%zLXPIpb!(sBSPDvEP<-PMeJxp*M{KT5yOVuxK+Ja$cd?ws`FyH#5O22X
zOsWw9oapJ!Zg7k+1t^hi;b!bJ`;4sw-MsJ-j89{rn$2r%Kfz3xs}#E{Xb{sgoLXZ+
z?HR{llBaP<J)+JH>-m^v6T8srHlfp;s8;HjZwjiSr@l*LDGxE6&0%2AeT{@w*6Hnh
z^J7K@RyO1904jDIZ@;k{D(M_)^+A)W>#>CfXV#LqDA=1Oor_x1<pSE%(k`4ArGz{i
zCB82zG`CUwQBuL3W(O2rTDCGFOx&P)x(}~N=Inkk(dCVfiV;vQ7^RRx$h>ubn(=A)
zJyuY;MrOB7>S9@%T6|ZT6ZVR9g#K}4P&w5GMu4|UaeTD8pk~kqA=I^a7#d7)d_LhH
zL-b$dHd@hf;^jZ^dn0<0f;{sBMe&MMl>Gh~?kx{L7QCgFVV_{AN&LrJ8^rfl7BaTP
zzO-%nXOkj2Ul<TgHs0&3h}EFstD=YPLKZ2eGc!CJdmfxeF$^ma<9ke>eN~9OW&|74
zvN3`AZKn7MqcUV-@Xqb2px70-bR$mUPPtNTESF!dwS(}sMmPjd$lMgp+&;Y+){`pT
zan|L)n(~aw=?Z__;Q5}soJ{AGd@RvPg3jFU*LtINr8-c2Y{d&mQz+IDZ$)r!$RR!S
z@$Fi_J-ymmtSS-18lJKU#Ue2d1@F%#%AUR|I{(4%_VkF57r~%Xp}TJq<@SU8+X&JU
z1O{ZAgRnM^F&2mLc2JO{+*tL`3M(TbLu*YlIPK=T>9WkKTYK~JhoOvGN&`pUiSC~V
zxbh+KUvJi?6VDc2Lw`h!yBnd7Xf<0eCKTVi+mEPTKa??P8Ow!=vR-lH21wTUP|#-G
zHa^XCqpBR|I`Qoj9CUZJp+LD5V0*neI<xy+j%NQ%JKs$}iUJdvsaXd(IleFZn@`BV
zJYz4t3#mxv;Yy}@HZ?v-sdW?;Lr!@3s=fpCZf)quE?X=6V$A62@tR>xx+(<6>w?~t
z8eNXuF_4Wb#V3>wXh&c=<TG4T$T}9~fooH15^pLLIW-sBL_n!tYkvGJYMD^bLE`-^
zJ}^P$oO%ROXvWHDycG;2$D%b{?VbP4a?^>PPD5$lc*dJ_x;|k&1)eYKJj~TC*D>bn
zd;LjZPjfI(SLq@%#R4*11$tEWjCJAKVVy71->pVwgfAfVWIQADO?^6YB7<(0KJbx3
zdE$o}oyqB7b~f@!H29lgx?&aN!fAZv?=|i*FAKS>=<BL(;5=f5%g(KEik_M@((LF?
z{*eB(6aO?T%E$0<hBaB&UJ@^(OLbmzfBP2w_@#Vt&u|(`!snIFxlVs6oZ>CvD{5PG
zp_`x|YFd0C&N#L*nbZ+bcataH+%}U5rR#em>av8BN_6FdeDPcJS62p<zRI{v!=Ecp
z_<s66F&}c7{Pb}J0Xbr4zbQ%YIml0ogE{!m8f2tb_I$AD83Qd;>vOt-dL;ZqAbpIC
zu**A;LCH3QnHKLqjj43u&o^BsFU)!28hFj9gj#p*YHf`(rv0E}qRzA$T7Bvs|Mcjp
z-x8Z_M;+lvCsGzVATX+0RyZKf`4YTxTmjuaImz33Fp-k}!U05EI70RNGpQ`_7F9?2
z_UN}q9NfAj?gl<~<28LpDpBK5ox?B7=rYhnNkzzK72IC+CzlGJM!itC)Y=@8kP&G~
zH_5Hw5R{c=;6({}+wsJkPN!Z>q}6BNRoI&lB6dqpJcL#Bil!4EBMCCgN@op*iZWY5
zZL6N4q+!OXzg>-K*tWTK6tsa`ab>x=u9JKbDZBj#L{?9Jz@{7mWgf};8JWyXU_j{=
zf}vMh0A5~-b;!jI#|U-!n!wfe_&2PlYt5RrhweGN=L@_9pz20eJnWn#t}iw+LKX+t
zAjrOw>SJD16;EqZ8{`Nc+2QLM8=L3XSj6#q)v0mS*h1gryd%R_fq8=$B&}75recMY
z!u~~k>y#I3DQx2OtBD@mNStK)tzF1YsbtXR3&J=3lwX#QKI){B;O$_l)y%oQ);q1Z
z-cEiVSR|;qUs-D-N(iwoKJA=10%a{KbhLRZ7@$c%P10|JWgeM4Rb)GG=CU@rQ2VJ@
z;}~haZ?-xM@=KZTbMUn~VPl=^9i+MbZRI#n<yU103Gg7nYu|X7<@XgeID5Iu8E_W5
z>nc<h>Cz4Y>4Z>h`{mCV4O^xba8{_%5RF@(gzBX()T0N&hqJ(SmL20$Df!WUXv6Uw
zqYi!_)TO(!Q0u9S#I0i0$@-GmD1Jw;Gasx{r&@6UXF_gQO0np542(RI5xu^{$)It*
zdV1v~zO<*#GnKgLO5&<5DIZD0R>e-cePpwC0{Uc@KIQmE9{EtWX^EoGjnIas2cM9s
zTqBuOW%+`Y5o0j0X_nA<J}xWtxtwYxNO)iFiq60|%}%J8J7#jB@SPFkf_jD(jMBRf
z)@qv8?YZ|zJe?@4XM>gBFKLn(uWg)2U;3g&=h=V2!xE)q04H{nj)M^ex?dXCN?2!H
zWjT+Wev+6+fbZ0@7Im?-i8_!vSL%oi+HHi_j04GP4$dU=ox^zvBg?6|4hv%4(y<;A
znm$^e1NLbUiM9{*9K+8R$&0W-T~7G*@(Ld)HH!3@HHl{1c55R<)Qmzk{+f!f7DB;N
zyX#E73Exj}U@p@rXY}~QLY-LBQ2nT1Qj=L@{RAhkf-PI}$3Q4m+SqF*WPtmMx0vUC
z)-_bcc-ThD>K&~cWhKp>OwyV_m@Vf6jx_7Y`oZlG<S-h}4aqL1_F2cYtya4bRmb&*
z$<6upbKk}R?n&NqpJ$`ZR8~uoK6xftE5Wq+CGe@~3<_6R^4zTjt=?Az+)l2pVz<sa
z-V5pHy%?uq4vAipxnM1xP`Y!+kvvdExVqsvoQPIZJk^SX;ah^OUts79CcCsT@euP5
zaUpG&V+jXUw`Oxe+5$PW)d&xKm#EAF$Lc0ob&z-*Sw*Jp%&WQ5^=*7mY#l>O4bD0B
z+^UlYs9DfaZRm?OE`wnLpNwR;vr>aHWoM(9UZk>VvIrB*yb3^zJ|IL=Wc={<*fG2t
zB@J|&MTUvIg_3LF?X}^|0aP_ac^j)oC=<pEj(_uRK@24}zGAUn&fx9K0EOM$Pq<iG
z_T3dvjSv_2qx(_TW&FZF%^=YH9Pm|2r|Np?W4OYxB1Og2?Gzx+Z2m-&w8aw9M_+P^
z9VITNXWv4jd3+lQy|5<9T|P7)yLD5(+P@>fY7~X)B&j2zSe8lKJxwRbAH$yv1wXWP
zBt*N&2B%!!G#73O?e(rgo1E(4Y(b4w!0fvO9dUQspC`VruzyN+1@0|k7JX#q!8b17
zQqlvnEP00|@Gay`MX<SmQS~)X#0pR4A+-GU2}v}|JNj^NQ%?jrzl>Hpz8^|rB9hm%
zkaXmQXM47dHq4S}sK{@$JgZynQ@jVizlBye8XQ3R4lctix^`{+qHcOy8rtvM8R)CU
zvg8IoixMI|&CQ4*1K}*V!Ly!$59b5}bEhIFcH|*uMMy2R6w^DTEe`zsNQdyfq!wpW
z9#f|DXrUB=!MP9)zHh+j*|ivKBzka;UX3!1hNuYJ>BINMH8s^wNWyc|C3J8NNAuxs
zUg?#m7S2<6>L)fbE#e!xDtuOT{K4(!TwNV<?Y}Io{7Ex8sr3@e^Cz^xLTj?v&;tFA
zq$PTGx-Yi)c;;wy^Xck|clF%Tgqd6Mdo^~1PhkD!H!n!}7~QFO_R@L_1d?kqnN}f0
z7Petr&97D0Prf%nLksa-i65CMaq1QkdrXLou?ahY6UdnasJ<xpH2;RTp&nMIfC_c(
zgN=enc2F&$osU1Ju(4NB>ZQWei4eX1?G{thgz-YmM_Q3iW~$n-VOvc0^JIptE~VW0
z8k~(=7l%uT3Wm_%78m8OHs3f<ihh#9Yw5lS^=3I7Y<}G=tEX9up@O9OE||==XR3q@
z{3$*I1-Q<72f5VV-dLX6R%JS|gCQZ3hIJpRu?Jz?$|gqLd%9;59QuXY;d=U8d?U$U
zd=82a%xm!0OVzU@wB()JQ^?{L;d1n534b<6MLb8?1I>uUgkY9d9uYKBmNw=?3HjD9
z1_5>pb>nq3I|W0O++ib_+pp}^6IVkYt>MT&=2T6We<`k7`5C33h&egn2z+y2bQDdh
zz;8G@kCy-I(4aDGCyV6<ru)~%eXpPDm|lr?)`F`!E^l<do?1T*_w0*YM_pn?bOaX`
zRaq03S03)(TlTTmdM_H>C`71R5U0okgA`S6<Ev%`QaZlXj6aPx0XGv@d3#`c<H&vv
zibai6fhLeZilK7thhZ!kXqBxr`n0Hf%*8Kcv^m3NR*U~_d|mhFjZ8h&s<Dh2QvIv&
zmrQBOXImMfrpR+?i|f%@ad8f06M^E4TnOLgBA%ALe5;-#C?PkAk_!*b()>YRoA_D6
z4Oi($`>r6mXn19eAaKVdEymd3^!C<@$-KJK3&tD6t?4suDICaWhS5$E3~)a)@OvXh
zzgHm`CGzfO&AjzT9q6c7@nTF`+xJ=~faz?MjVG0SH*VU`dsD9NI^Vt*`tsTnL8$G;
zpcL=VN{W=#=7p#}q@w_a;%b4~sywva)L^4`xpsIxcFZ@dVkgI6Lrj+13T-8?#=!JW
znc8rXk3gv<gAjU%_0=<13}p@1?QTA;Yjok3X0B#n+0}}uH5$XY!B>98@o}L`=!t+^
zH<=Im-29xhA5C2enN!K}`Kft?J_k(nX0BZdx^iF##Eh2d>&DM{G+9jn2j!uYE>k0w
z2<p7l7)){asbCV;9h=T}mSA(rA70|5PNjYbgH@?-zu4nbA`VX~meEg@YeL9|5lkTR
zj`UzVX`~cW%$!9Iz@0=mLALm5Uy^yG9=5M&V~`vOl~K<G_i{=_XGh;%BZkj22w9us
zIcgImx>81KREIpVYQ4v3lPUb1PDb8&K~P`Y^elc{+2RJrWxBIP^Rky-3H)nr^?3m^
zC9+ovByNPIjp@_HQ3A$2Cx!c2Fkbs8JLZbg#{HpsMFI1bE)F!yn@Zg@)|k&76enIC
ze-GfEyq&W~s#)0yhBMysEo%7K^<k-r;G(HQ>2`UUZ;XtVcV;FKBCmx7QT4dSbKXA-
zu{4-e{gXR7u61Our;oggqsw&5n&g59L{c7XzJ8&7l|7DUV9m7bT!R8(P+07fBva=n
zqN$e<Mw<Hdkez-<gxtg+y|sOBu${WM#%z9)mRPKAm1rMLWtfc*rrBr`aoe-!!G4*t
zZLTnjVj^hjtq(c51!285N6e*)z1xHTwj#_jp`_fPGFN(bfyk^>TE7u|z0nu?S!DQJ
zRl=cdQ3(qPrPyIdq8pz5i{0r?>O`?9)0dQfRB*l_mle%9V!Y=_I38ol;Y1*0AqL9f
zd+4am=mcvlZr=|<8HrrqZbP9+D(?seXkeLMHYDpHa@hE5QTDW-S!0JYU`3;M>O!$f
zdodp94yPp!_4#g>O`^@d!<C@w=K$6JD!U(QC9DN)%u5ndOR(95?GwQ*%CjY@`rVup
zoU(3>z8f($aki7EY65gVX!J9;p*2k8n}S7ewjf2Kj_O>p16fLGaDk}z{4DQX>%WZk
zMXdK!>qCr(t6HgzW<&WAlIJTY(N(F&ZH8lfSrcDx(9Wlom1^m?rQ8BF=8;K|N_@|3
zFnt2q_95N4R;(sHf_CZUXHh@!E%RlpWu-Re2_>pEmYM0E)zR(eH})7|gQNx+V$fuT
z;12wqTvq-$g`Q3_gJ{EQLB*eyymnxMdf_iy&6VEB&-7*TWC;4yf1c_XrCJpJ#5%1R
zGRe2+BSA}?n^kdEBs<>=;%b4(&n=T+Re3lY<Ujd^7cJ1#FHP{G{)ZI_41S7Pr=P0s
zW=-|?uX^BSqBTud<{Fekuu&cTq(hk9(G%kSnKyeu@=wDC2KI!DAlE<7Vx7E~MItj5
zM_bb8&2|VaudDc!onAAar}=$pHDHwl3iXQYo0zaUw0!)FkKyrKg~NnhZ`nM`zWDT`
z7q@YOIS4G7OsCykoYB{NfXsiueYPSz%)#vOsjDaDefT$u8Z-h`8s8U*`=t$DzS<46
z7ea>lJPVr4Qv(?U`9c>@nyE`9W~kJ>Tu39QBMP}B$k!Bj7p!VA5=HWF#ND%Ap>@4^
z*;!A%9P)Yn+<qbB1@Vm6t}_)^o5EH1;$q-_4V1ft*$dqH&vNYW9ILL@rjaj$>8*~x
zWuM<{^+Hzc{dmz-S)!HAor|ZRi#H+}o`hw-ruPx0wq-8Xx`o7G(GaFk;UJt-8D(nm
zX8IN~c6mJuGvxV%$56$vy|F-NAC8p*1!JO_zi7<H4YYTOGI<-;AjI9%siL`U5)(q>
zPf~&>;bA#CYLhW1Uo58ff@Pleegj7+!<@ajN{B13qL+vwZ|K8*Yj(UbLaKt38<pKC
zb3Uqf*4CA$pJ@CYR{bcOM{g2Vj3I<!M|x0Ey0t_WA8h;uB9FKxMV!PuPO#nea&c`R
zGlGCqeY9UW16y}yuUfk223?)LIyjd#8IKb*J^V^D1Bnn!N#J1_>oo<B-w+S`*vH|^
z<!<Qx&Ot$A{y~Xn9d+}n!*0_TZ0k0BFk`QuN$T^*z#)+KVc66>iG}2xbOx`Yj7Ncj
z_wowD-4xpKvXd}|f|t0cpXesg=0!=dZ@Ybg>JT&xHqRy=>|)1FlT~{A4D@#DlOCQm
zthzyVzg^<Nq^=9KQPL2oPt}^a>9OvOi{$o|#7f4Q&9l%w51w~4jqc!#^lZ+N68;=r
zy?h_kwAVD>PN)il`e4fWl_j?(xign`6?O$1EG4Pu68b$a75c7+O^S_pwU1x1Qanv^
z2<dmMoRJ8h_tG0wty#wGEK2|pD%okk-8&RS)>wr!N-B)5o>~DBb@g@EX~Pv<_7^WU
zI($p9KpWxd7RPZk%oot9Mc~A2X(0Iu*0aiGWuYhI3A{YBh->rMH~Dtw1>+@^F_*CV
z)m!@0RVDS4>8VMf2UDh%W5%tzX$!V4SOWOlEj)w5p=HBu3xuI{zA!C#F{Q4jnsOZ@
zD3@vTrPbP&tP#*2OO~9yEy-Bby_`5_LpKd?bs>`dq(2AtYbH3WY*E)(N^BClU9&P`
zUc~KA4|;%4u2Qxw^nnkP-kn9IsJLcIPWhGW6H|kI%jk@sLBL~4c6u5qF3*G@dbF*@
zT3Y95k7%0Slzc2x=Q?kC$OBJBqrlO~y<JkmY&ka+_T?g~Zf4NSS@mlu{tUar4?UvJ
zpY<!DDN(G{ikgbqYaT1cw;!9_`wN*rT{kUEBRww|SId!07CSV(kZWMKAdE}f&2qTi
zpmJ5I@+-<7vzNJg`@KQ@$LAQz6*s?re2TW8$W1Rk5ys8k;@kEfA+4!gDAHL}YxrVf
zVz*yzCBDszx)eB1+d7S@=v*+x@i)fMYuYL^xk~F4Kr_6Uex((xkMmu>6^n6s#ZlBz
zbzRNhW9yK$c&hH|)zCMEh&PzaSn(g4q{{Q$_u%~|wi~F_rOO(d5b|CqX51FEH{mt%
z6;C-3zUUq!`6$@dFRx>(w9M15?{>0yxwWVCYL|~d?2vU%K4NQFE~w1(bAZ=DmmLR&
z;g$2vR7}2xJJ!pfYv{hKiJeTB$vBr?){`pC=&EO@7a!96o~8SnG`VhQ<yhSqjWui0
z-FW=ayJ+eiyCxkX3;JnyRl;1+$gJO?cjg?gFNb!Ur5=0IB}d=(E>@bB-E{4Hnbs!W
zB1y5sEl--S$}z4?*J9Ox)>#)^?ai}-d`tediH1Xa@Y=AIAPa$V68Z_>w~pYm8k}7E
zvWz#SmuB{ESMXmyE7P|U7YyRkLTfg$O8=zV-w|^E)SGJ&UrMaBpXFZI7~8UvR<tLp
z-k_-o(}(XC9)~St%`t-`GBba6d(%?ptZP>rc_gBt+TfrS3Oz<AK5BJaa+&4o!ES;W
z_DTv=$rvpp&OMwWmRI@W(7KBqtthIVWLRG$UG#Z=!10N!EWMPJZR^X_%OZ>FfLQGV
zxi9LMn3xwoL)2lnufE8V7uX!meNmz@jcXfjGQnH>=n+O#u9SbPiF_JIkw@U7zbte3
zW9a8lMG1W04YibqO6?VcV&ZV43WiETE1p!bW{L$SHPZLirv8z7>aGHBtB#>o&gd1%
zNSv^>aEgMd5L=twFdMRyla<uBC9PI6$d)o$W)%lj&|dl^)hSHkvHntKbzhxbZaB1%
z_PS1s>ypL}IvBB>%dUPd?l%!1up{q71d}19Wc^ILN<-F$h7?^mMwU<)jtr&b>_Seb
zz#%(JKw-q2XMT#8q9<fm^VX~_YkVl5cU*sDg5EA<8IAiR^iYO*Iy#lu!i#gOQnx{A
zA8%LTD8~4A6$5b`%p)7L(pW_kZX6O8?2u1p-QMad&--i~6A~7&JA?S4{UiiKH!5m?
z7FaDNc`G7B91?fC$4<d@*{)qc@8<U=Fm(%^!vk@pCy*k<wL~=?M238l*Vka!!3`#>
z`zsMX-RaMQ!@(&DArG0I>i`iYwJX16w1Jd1TcceKeoh<j!{yA5QfI3&H7Ndar;f}5
zdiO4?K&-q20@Yv^Dlv;^eCp-ZOsMsd;bPVTZk^{#6tegY0-1rDmU71B4jv@3HeC`B
zEp`P^gdiJ8ouAsMMpyWugZ+n@I=*%VhfJ5nwt3QCP1v9+tCpy~w1O+DAVMKM!y=?l
z{K_8M?b_QZ*cp@`7UDJ|^;%brkY#$Sc&jD9J(tVVVEA;LI)ua#6Q6F@#bPI@3_G(R
z&aQlRoR%qi!<aap-*l4=hQtvAmln^(w7xT$UI{)k2OLS=d<(^seAWe7CWFlZqP@FF
zL@aonFVWSTBTJWeY{cYk=@?<%8kXd)+tEA=Lu`8+GKW<K$Qy{*>6xb-zLjNK?{S<B
zv$8q{Q*k}!?dp5lqG#tVdFp4EIN_wrojk=e*_>gaddw->gGDJjDUUQUuEz1lxr2)<
zIXkQZ84T}Oi?XE>+xv|*Cq$RgCl_@YSrh9PEwY(qY0VH^YWQpih>42&SxD09MWbK>
z*(v@XFlUQ()Xzt%5dz<QL5yorWY^4s%|qioNyjbEt<=V-DVWwCQCz7PS)ob5L(Txt
z>P7~|rz7&R<_vU;DGao=`9K6+yf=V;*M;P~B@9*5q4zj7RU1YlbMUsd7~_3|nBGN|
zmB@K$DGh!G!+5TD4%|ARf-CW+LY$_ynO<g5pVSlDpnpVc6w3@`2$MA~SA6kA)}~1U
zV#IFc3)&UMhe_c!>!_z|(2-eW%<U_z#Ym-$QF<aggVfN)7QeC0ehhy{U4oV;jx%Xi
zmWb^Dt#GjeK2pHmpo(2Z13W_9#y(oAkf{~IS~p>*e=t@Fh!0OZD!t5IX$P*KR5^$L
z_hD7_yIc(ZEf<N0yNJA6)S%SN_bHPlS*D7uErxnqce%i%3g^J`hV66aL3FcU28Lm|
zjIuM_8qHy#tG=3jd1qb(eb+~G0T!bVY%(@Z-d2ZSzGe;3RC-Hh6`jL)MplsqKB>&M
z-V`^5#=U^w;^MvXNfDS&%~NI{Ib%^LDmwg*6FcXOCs@8v-PlgJ>P`eHym)mt^2eqa
z@f+ueB!QEAYE0sLY)>^=T|oG+-JP*#H(ZG{&5vOqDe!*2zsrnERD?+UmjT!x*oy_M
zp*m>DikZvZrc+ei?WVO4hx@q=_pXt@dHNz$*1Bpf$?I-63bGhoIY4D~oBuW*jR`A4
z-!3IwTeJ(zHCpq9)!rIG6&1mTkW~FP1x(aMzb*JW3ut`MGrS9GjsTM4Qte5k5xu6j
zfK43iVde<_sx9{H)+-CJoEe!E`zm=`dW5)1AsO&gp((*o#5Hm502Bt+@VDwX-*y(I
z#I}jL-i}OQRWYe&c63rBe&-8CJ7yc))UIxy4O`+Y-<|QbS=|jp#{N21&C%Wv#&YZH
zWN$0u>{QWXNX0a=W-E+VG=QxgK4&OcZ&ZGv|Abuk3{Ej~Y)ZOub_<^%VdI3JB6xC#
zn?qvnw<XP7ooBQ<&*F!jC_?4zIy6U&(c#@0?BoI^j)(<4yK?zNd41c(N&)h4<K;n8
zqhbbZH0cx!F~cW4cd>4!c{C9hozD{kw{UrANghxG=@sl=a;u%X-XdxrXr;_9ZR5*U
zn<qLuVdzF?Ad&@5ci{peT!TZg2H1+JtsUR{a44;>{x*ZbASqPqMaf1IuR-r;u%$|v
z8&sOc3S9U)mE@6Etw(=F{5yTp8bpGGNr~bQJ(;HDQ=U=T4Z>hB1FLx0z8uJ9Oympb
zb69uteU|5FBs8yUpDv60Zqg@(r4!WjoLi0Pu7DvG3?%y7xHdzmCdlxk)QEN~%cZj%
z6%<}aSH0}#z037pJJ7Z6m{$K_-Gn@WQ;7ARsV=<{I0r<^9`Y;@;Smc^Mk%!e1NnJw
zC!`{6a4IndY(902Z6f~Zru~$slQ5}5w3Fb`q}cGp3_<$I$kuf|y31wmajSf!kw$Aj
zo~?lDmZCc$nHPaZlU897GpOQ&!HjruvAW*fjfBenXTEve&9`f)wQl;~W@A#-D$j1C
z>IWn1{=3Cr=C_2Py=%B*Up913_g%G7sWrJ|7U5BLZw79;ASP3gI)&M1sz_(W?2zwU
z<pN|Qk`<8Nt0t)5AX^gI4hU6L!N@h~T9}(e*>reW*zkuDxT+G_LrA7z@#%tA!R!WW
zxY$r7%3nKchpW>I)>Fk_5PqWUJ?>V1R$-mn(O{Nm+^QP!b%!L<sDTU0dsP?pn@CIl
z7(-m4wdN5<JU{I?E({4aEG{jaoet9Xl#94KmOYE_SmytYWz!>y1*!!%bRwZF{JSnl
zSILH|Q@^XGinTV#si8bDSV$DQyU}W&Sw*Td!|`JbaJ1>3I8S{P(*`S&fAu6lom{Vw
z3dK|)<Ogo4aq_0I8zN-&+ca2)ut{H#w#Xy_p@38zL-%?{h$DFqft(S^vmpMS7*bT>
z<q&istT$ht-?>q?MG<B|XI8}Mt{4A)o<c2$Ad`Vf4XV4!oRKAx5rY0gb7<%y44j(g
zgW_id&&Xg=l7Lpsb$_M>L`OvFbj)pVh=@L)5KPEfuhiGLU~XXO8xTMG7stlF&(}0?
zv3gg^z>7w31tMV;9*2|(O|orcTc(0br^j?d3ar9CeJkSGuhnIn^26e}CVa9WZKSiv
z$jjFU6zL5}JpPrFq<8lv>bv{W1c&45JeE!@%UOUkuRLCn9wkh)Ivbh*#$f&CRw!@o
z!QkBhWoo<^u<3z0%+&6@Aa_M!AdOXbySsZUPw|JS)7X_$MO(Y%KZ`HLYIJcNMo>+F
zy2}gl|H%t|IozRo;tzLgh#>FXlAeFCoT>Z@q|`Yp$?$GHljXAlc`^k{NZ)(+jY+@U
z62@Ja@-Xe)zJg-Gg1D4UiO=2n@O=ug5nNgBMoJwunM^4J3`Ha<30DWt=h?oTnP*QX
zra3HSkH~K`B_!%aktNj8>!#MV5xBEZot~Vmr^1KKN3_z|^^4ukoE*N2U%&z)3VcJc
ze3?sBW<lfWEAKKk=(miu`7L8r*`{|j6Nw4wD4^?Y3_Fv9jM$bq?KCUQ?j{}P-K6Wg
z?oDZF9a1hqwPai7EZ23uODMX#gu*gm#Jhg}u?WfOE0%+fRe_XP!M3jjOO!5t4~=cE
z4qhY2{Qv9~H#FIdEW;XUeoWq!tmq#~MWFX%F_kYE($%WkwC6H=ZDGfZu(fJ^tBlIX
z*=M;hIV^eRT03mN_+?}36KY*M3_Z)okYeM6rv@H4s^_S|#aK6>gXA!`%D5V&JQgLm
zs?IC&(zYJ721uh6@pQ8hVjz?~T|^k~IWC!A^&!|S>@`i^-I*1Om7a(eV{)lt(0J98
zr(8iC_=#s?nj%5<tdX<_dnGjW8spGAEm}?m-F4B1{H}}icU_$1eiw&*SsVXsdg}_+
zX$oiALSDXoaxQrCBjH=4f#*E+s;BhZ#v`&0U(4gCObl6npr#a#XTlqd7Bh75yXWOM
zemUkx*nBQQBIHZkn{Tb*P<PFJn4~nQVwIDDjYBsuCglW|QlumsGOqHjTzjtqR=X-V
z`TQiJilB0ImK!2weFr32z;FjeJmNA43CoNy;p&_Bb?y%_EOp}@bSNp?Q`}TR!y>H}
zUUwSugKZclch*(4iRB4!k|xl_&=2Oki+8t-FLkms0!IcSW*?S_OiZ7v9<iG|XU6kr
zZ!6H)^?DAOWx6*qvgPus+0}03B=xt;Ay3&>30pZtRog*z-P5bglfAMHlOEK%XxLAS
z@}g5P9>HI^Lt@>VR|`6by`CRr1{3{Oi+Bm&a2WE%9aBMR8S;X*`2Ox|9Qy|=S}WG?
z%9);=xh?Rj7R^A^HQ?@^M5hR7@H%)rt36k;0JGm^Il$7go3OMiuU+6ok>sesnn-7>
zLhN_YDW8LdF2;K2J6982%)Le-JC*ABd?>SkVZ+G2!Sp~=(XIiXOI3r>Zl8Wx@467G
zh!2;tB4}?c5ySq#Pq8p93W~7k*cNR5eejv>H+k>LfL#*yuFSR5yUp$reY*v=-GKRO
z<!d`HQVXyOCJl_l;jk_RieWo_<O&f?^A>94680s8(l;0yCy>y^#TRHH<gEP)3RW-6
zj+g6XMiLj9rcHV*pQ-VWupukk*-r?aYf9S<kV2_x9D*A(LDsHQVrgicuo$d>*P5)@
ziBg_;%Ra;P3d5ohqCg*PP%Bb-|8*)*kzVh|L`>5XyHX}?+OvzTUQ&bvt9_?}@RAz0
z{!)Cl5iGhH+;NKbfRxCMRwaV!+I2^!*kLx~yD<9nK5E1n&A=0B(qH2pxj(g=!T+s6
ztU>bQK0|#w`!)#sNqP<Hm)b2gPR3rM`gR{!*)7^2D`~;wdX$0}g?C)|<L19LPp~C*
zS`N&gn>XI>vCW)^p)rPlfD^yd^NCH7hn%uAdq3Om>A<(TJh9NEefm1RFSYb;T9R_a
z4KrHaO<Tmb1Uf{iiQ=t{cl+3b&X&b}+Z1`n-qiwH#{R0~60Mo2tsCu;7=>3E`}}d5
z@rNU=`kc=|w<@lxcXrGiQCQa&XvH(489Q1Jv4ac0VQkTgTJ)|~P^xIA61Lk~4y@6d
zpYul=2iH9RNLPC@rv@S6@+|_y-*(?4$~MvTIv6Yj`R)Wg#WX5W9K+A_HiF~H`7<tq
zsqxM)>yartaSWNfEP5C)tfA{ujOn3XFwh)%n?>>}>F5i2VU}r)UON_CU;EoR-d*uc
z?`dLN3Rreow5AlCTz6{(bYs1nnL3}v=5}!L=k$VRd4^7!vMHrD-D&7w5*u}Xj0{zq
zE$1Xr87iFAhZIM&qSi9Mc1Y7mugPXk)U<FE$L1Io_uS{KQ^WSw^Tmh7?Xu-@%!N4z
zFDq7k(gD4ws2^{f+CGg(6(Gb<CVA9H1*uF?6%uslaiL#%ln&;79Xaz@Y%1I*PG~#;
zE2cce4QO@{He#rs2x4s4j*PW0DWF`<>cY7;MBrO8Bu>HHId`Tb!Zu@1HE$FQ%F)6y
zwJK8fephPoZfL*5QVJ7cCSmoBk!K@s6s~dnXdjY_*3Pki$`Ep%E9TpsqN!7ea|M;2
zQu_MlL?R@+=Qk!UhimfsQY8NT&k1HgZ+G0`G%*l~$)AWK3^At%p^|k71*csMAQ4=J
zQ^|)sA$%f<a50Hou6arCQKl3TnJ)`Qrb>4rah+*~61X9osWf+rd}QwN-8#B85L<5L
z)!vV0mG%K`JAs0r=j0K(!V@ktZ~Rnmo4KpNU5j*;b27elvhAMcW|K17l%*iMH3kX#
zf=LYo5zKgKIyZj@)#3_1zx&{Yj+0K(Olgn>doWSWgBVG^oR(LQA(r$>Ztf7cA$l4m
z_7z?rk{^+|T-^pzx!&F<4V;1{xT2=xOk&!>>bg}abEl-#myuDVS4=vFFLpZcY50oY
zaM40Hx+Y?;;VMUuK^Qw`A$F+P+Ozp23UjkaKyTJze!r#vtU+!;V9?{HKT_kJ^qnmu
zw4jdKNAg36Y~RlhaA0cD+gc30n=`&ty!cnEV9VR?F^)~ql7;0GxgLQr$7F-FU2YMt
z8El(m_aJwuq-dw7-f_cl1{ZyCn6uNrnMW-t&wNh1helg{oub%sFb3)H8nF*nWeXZ3
zVGfMSejc)CSz!r|Gt)((IB31q23MFi7XInwv&9?|ds1nHo?r!C44J}VGN~V!wH(fk
zk`OtO3IW-?3^tgBLF!LQOYqdXG~7Q*qBfS2NaO3DIt^2@zb7y-p^YJxve5rjzF8!#
z5@|gALvVQzSJi(qyxoRcJhD9>MW1YlKl_-hFtS{h*JU<d*m97DURp_WN-$0T<1lI2
zt%5`?od!+txB}HwbHS(*+v+%DfAP~D&5-Iu&f)_c#lz-L9|N;fX%r<rKYgRb{>Utm
z2pU8>@$Ms@4AT2g7paV|5KWKaW7K9cgro3=tk)y*DLE(X!^fU={gmx#XN`~ay$Um~
z%d)qZ`-&RQpuy+g{dQeBfXL#dFBQq;#1}T(*Z5P|qCcz&b>K*+hP$k75CyU+>itL*
z*YcmvyxbKq+vz>?-$?lRR6Yi)FhtW7w0DCvL3OKKA`1`1Q231$D(5Q&+DuBC_hf@k
zS)pX^HieU9J)t61YvNlP%{hlGnEZ(xD)Q**Q}ZSgU}{Rix|g-*lT@RAReof#VFHn4
zH@;M)7g!{|>q-IBIj`D=(i_@4Z**R4k`I`oldQ)$pEMZuiv~F=k?#kweQ?VO&+${L
zyq@MMIFFbgmV_Q_qgssdM9=^=g*A{ox4T=1G7T>TcD6XMHQbEk4PNXn{aAQ!eO`~t
zhtM!mbT}1)+eGr}Ku7)6XcK%9^!`&`js|<DLJT|&i{KoafD3vJ6EK6yzK{OO)o%q~
z_K&H4wt1%?#RS)eh1daweRfJEq&D29$XMM$NZ0?-kLz<qT{8=#P43J_YWa#SQH8tB
z(0<pvn(=dn6wGJVa-=!Uz1v|ks|y?)RdPLUc@))<2<J2C{QYLcJ?-^xs(F=*U9-^$
zW#}pO`s{+DGii5_sl}YO;HZ6}2o7jLRI1yHUeootM4Q-TR#2~|L;e)c5mcS?%?@0H
znMI~?`50Orn@gXw+CGj}<z4$iu?4Ck6~(hF)HKur&eJl%Z>?IPRh+l60^7@X(6Tro
zYW19tkH;pj4t+QvVwV&(rJ2=!qp3U|9|X$HCFZj8NT@AvzMd_&XM3pUX2+)s@0LLL
zr2hsov{c!d;d$q#smr^>J!43)g!VXL@Whh1p4Yr=jKNTR@QhI(bz3#C;10SJxZcwc
zh&bRD%x<HM)}%`z{b)%qfdA6H1P^N;Xi{W@Fo-=+6jr&*a3m#H6stwYQ~t&@@5!Rd
zRUXZJsfc_8<D%%N-uTKyn%0<|?{aYEc3PpC*)<0AeX|B5aUg78hx2hJgLA{4qz*NY
z819u${-8wn023%$fis)v=fO*Wp0{@twZAz^I9TZO&klPMD0eJMfZe%?@m(@e!6&e{
ztSQ^w8j(`Y!ydKPukfiI*8Vr@u~Ee^)u)n!r{>Ds%FkO{Vyf)uxExK}Oen?=t)R(e
z4V<MuuATYi1k{#5+G7Qg_|`K9*R534h(Al4(pem?ty>S!C+(?6D>ZQ`LuZaZG0AKg
z<J{($LAmw!Z~u`c#*Ul&W5>TrMDTq{VpQ4qLAZLd$qK)-13wXZIW2e*{B<2}Y`wsN
zN6*NBXrfs)lGE(Gs+!VQ4ivttuy-GJ#lSN3v0qERue{16HG?cKB`58PKEC_Jg*y;j
zCS3ZROdojQuF?9~oS|Ox#LV$#JfnL^Y8>*W7pK(H5xIn9HwT#d=luAfQfRPa^)Ck@
zdK=CpmbYL*d%84S;<l352cRv|XqV0QgGy%>vLxl<c0c@4e7qP?tW)rNq7I{(<x3n(
zCXV2{u>xLF*ethvu7AVK(O!dt*ZP8FW(kL~uSH=k?KL|`rwCg;Z?2tHh_>J-U90f2
z%zkL-gbXlbWRj(&M$AxLY3L!9<!9vT2w|=1IGVBW(lmS=z2tgE2RoR9pU@EZ-#&*J
zTh_lgeeYM&nAKCpZ)T+<%F^=5?jQhn9tG*UH!b~Z2?I|kY|2`nZ#sUx8P?x$d%sWh
z*;sXu!);)#Pk@NiK1qH`(#mq;j1y`d`dxeptmFGYhhNE7n-+^jVP37h^j_N+lKk`U
zFR-OMvxw|8UvV|PJUiAv9ZZYd_6dE}I`jsGPf`8}G4B*zUe)u1W%ioXcd-W4xGx1j
z--tGJiZZ*S(v|bgrJo4rB2Rhh2Z}>!r`EZPwyd8Px;7PORVnvu#rCwm$1VAei|nL}
zJ07aMSkh-M$G`a`_3V33REYi>H@Vo(O%@EMo^100Mi$SNEQv@}xQ=+cKdNL3QgtZ1
ze3adbaP1ah_jee9-&}=J+Nd2HUY*43#9{7<p}#V8r2iVPxGHi3!*CRIyZmFb_-AAW
zLY|A$)f1?96W~8PW5;&FWIA8m{Jd~{RtM_I)rsI7`UXRra~Hx8tkeP#LKY^Lpa=P#
z5^Ofv<+YmlICWGkg&!{6+H>LoYlbGVyvu?Nd{@%pSI1+okgB;H*V4c{`Jke>^AVe5
zXXA;I?8aLZ#Ry3{scg4G<yn@}ZSixGoyksMAWSZ;-Ta7X`%#A78dyS=jwy;hZyWnV
zAyY9%K!lkEWI?LlWYd{OxGA~rWsg%H6({MWjs~^3X0xJ5y{MLd5mIoWo+cIYew#32
z4Yt=hV`rIN>@u8ApweX{Bm-(^vJ~O9-)pjpjG-Ey{I$Ll@UTJG*PV7qdrTQ?7B0I_
z6RlP#Mn@_@;=3WH!=iglrC#rn)k##&4R2euB}Q{|7v|5D%<+E-c)w2&aYevp`=U3I
zgg)u=Q@BOXTii0$M8C4CsVaT2gBaVA9@2i$jBHAKx_mjgAblYsoZy_fHz`bWw0z9U
z<-A+k#!kMS^;=f<CPWC<BT?RzIn+i_)ynH18N<NEU;7^y6uo!j!+XC32D{->kR7v9
zK@<X$g_$vnkxr&HE89hD0tOF}D&J=*umJbzXFlhK^Z-_L4=);h=Ah3f4<g<bgyD`s
z1?xni!NYf(<X!^FQt)0u(VrTk<$4boqdhC+uULFv4Zrf%59GoDtEM_KC>21pVf|1n
zye^zdVImohs8X<m8zqv<Vco-ox)m;=L>qi!@U3LZa(_dk(~-1B2IMI;vP!P%%>iF=
z57rbn+rWX}zT@5=QguOs40Dq1q~5n$^Ea=YKT2gvZYSM+u6!X40jX+x-TSd<4DwlH
zZtd+V{?;L^6LH9-#CawIUdFB@mSzgwpaW}@oMaEWE(wQz`Se$h=l(4%>I~7;M!xlL
z)QWV6vqk46`b1UZd}OQamUHL!S1KHg1`5snt1#v>DjSR#dzGV17N=`0JQsE_+KObX
zr{2e`fANM5JIQNYfFId1n0?vpSw!eLNl{z5+}G2vP&6qIW+LVg%8_S$6g#D<jy@In
zY~OS-GEm=^D{kj`OhlT<6UC6BLzAP1IWrH(`VUnO6^+V!Epx-Kf|(<F(Q($J#E^OS
zM5gstt++}3HE^9@+&#u$FoX>b6DZaM$RzHsyEArA>Y;;qye7_=InOi2gbhUUnV?M&
zTC%G)6?;<O6@kPu+JG5a?CfNwUwtP2osd;}^$V9w<7a8)l`Xt(;?vBcT))o@AN*kJ
zWY8tqxRk~>Ykc1turQ9?ijokaD1C@8>fwQpvhT2Zk#zwrpXEZ>(7UU~b!<NB8*9Y|
z%5)7eq0?{O0ZCtuaJhSi5|V{*#O&XPWmzU)ZlP;vf>HHS#JveTqH3<E$|`Rv#oEIk
z4ryDK@ymX!8ssUKNk!E<7F@rAab(q%2|MdzXJ6|yvX$PlV2R79dw2w5wrJGbgDV1d
zc7N9H12@Nr_<fS=Pd9S;*1G|5;V97}WtZHtXNW`Sb)}iy@bUgV<1_?QSp|sg*t7xI
z-hQ0@IhfLh-bP5L6TOn63`R)q`j88W+5Jxq95jtsQ+FWhD#2anFB65_%DiSFiV#H|
z#pdf1M{9C81)bf(b2Y8DikAvhD<|+kqN=hyZyev_zV;6W+r?YGc7AHuUTgV!3LgS|
zqP@bT-y}C?R63MH^eZ%~&2w&7>M<Q_2vwCLEkY(UD6#pMU-_Qy(IF>jDk_14Un7?X
zr2BcI4Bq`%CPm)dGKmRg@&=VGJ}%5Q(IkO_y&}JSudnB+%!+`SUl_#APXty(i9lTv
zvOX>+&An%aPO9x!IB%0Tk0(mD%p<X65Z`F@8B>Jss3_V@X_S&p;Et(LrB&H(wPE8R
zuAVJ_a)m5F^;-BO$|w2}k^u5sg7ayU|1%v5c7l#jXinPlaLZ?-D6Pc%6Hvmq;p^m-
zO|upA+@aKtt5sk3o@m2;?!gf9hZ5U?QM>Uivg(e_XYa4#efcWYr+ozHgD+txw@#uE
zE}~>*|LgoX8{Pf=A7(qUEh=cTpS=kgcwV(F7}$*@SFE;kRwYu!{HP$b`!Q40u(vvT
zh@;P(&I3j)smazPgS{7noAj~%xdssm&FWA+A-#uoxrMB+v(EYk%apX`=?L@dW6yWN
zp4YUPKVUG^jYYSt@?&?`<+tq0uds{lE;`92n90N9qEOE?`Nl^}kdIG>maq0MAnS!O
z>#t(_?>f{(>*D|>M>@RUr3q^0b++90b1B9lsvzxM*v`TdGE?>nmoqgw9qx~l%#5Z;
zU&?T7PeuI*tC!~tU5WikC;8?~AeIB+5n?T6CvzxrU?Z*kv5@HE8a~eB6fm?32_?7S
zV_V0w2WBA%PO}ZFcRwfKz_{BD3G=VLt+3xRvo|bq$UP$W*OjM1!SgczKE()O9*9-_
z)S&5D8@c9H>Q&?%_V7FQ#9c$P=p7<g%Y8LVG4B0t=><|2JKnZXjYRG8R!`zfgt5V4
zQICuZvlm6G%x~Kmm<#i_<!s#44aiIJ6-vqu)TA#2w<%n|=!Q5>SbjCVrT+k*yvN}|
z6cMoe+`vvZh_}8q!e5PUKXH7~Ohp{cFY=gr5nTo?P1szI6Y~p-)`(!HF@)34m}aFk
z^O2y>?92mj36d_XMKpURx~}$cPoCv6kRDT2_wqtNJ0V>cOG0SjIvNv*d@VU@q!1wC
z@^MhZd_3vf0kzsXC6$ekIvqGPy2q8$&85pe9RYKFrKMrFy98_-5@|pLVQA#Vl-@Z-
z$l!EW%T^2G>wX1x<#0%?lNxuY596Lr>R>3Js?Th<#EQPEZ(j7Z5z$2J-Y$7u*rw1m
z;tEXb7@F&+oC{ILu^*GhHDU*EVVwHXz}07iA0_qZyj7ZN>sl;XY`Y@=!Xs$CNIF9F
z#^3`r>;;%BTG7GR4;6zqa>0kFe5VrU^87QJ{3K>!=UO-FXvn4f#3!~X^A`j<8}fJ=
znz}PcZmiuRp>sa@I4vKm1d&f{qI*<f+l-p6I7G`k<zaKbg1ngqDcI~Y16fwAAth53
zEPaBPRNMcRrezu>z6Rg?Gn#Y>XeSd~@>Icu<N)O5OY!TS#1))66ALB~u+nHzNq(gE
zd~6fSQtOtebCtV~84f_H7e-I~vq4{w)j-?!NW$49_0RLh>)@bR=0Ti5{3z6qt~Ras
zc>JX0)^;1(gozfWKkJikEm~+S_yS9!%ZDm!rO}Z_edp5A7Ry$WQWBJxj3Fr@kVo@N
z>p8(%lCO1om#e0b<IIy--%6VJ<r&Z<mNpYea(#NM-GUn(RaJRarBCOIq@(Pvh|XM|
zyGPMagkT$aOGNCRxE=nJkw5Ka5E!fh+Ev@NJyt2X+g6sKiD^_&Jz1X9bkB~?rUh|w
z$AEckc6+oFRlh);gCd>m)H2(l+v%lG!DNDP$m)wIogj-4nMxfm8)JR`Cqmv+W^ei{
z_1J8@`F#zWTFBv!%BvTyBC-0+LSsfVJoTLIczS2QaXuN4AnFSB!HyTfONbG578CdF
zRRG7_vpmqf8cX#OLtqU4p(6~cm+c8xVgnJq-Ioa?5(;8xtMg>U5aQ#ZZ-(Sr^!uZi
z$TFHQQ<mS&$b4P;xG_$^aQAIJeo@TJR5e2NpzAkF%r$g_rA!!1jau=+vZpZO9;N{!
zB6!f}2#|WW^-U&mXi(J``>ZG`>kV%_yHgM%#zO1qa`KVF7-(L5j?2?<ZJQ=ZGP59_
zE-RGquMs0s)o)<Ry7SA*N51#K2RUynrm~N@lsJNlZq+G{Y+t0(_da{VKGVd584U@u
zHla{}9EXCjwl@k6<EyI#yJi^m)0rmP*Cz6HPVy<X&tQPC2}@)b1=l>dbZljw<U4n7
zjOP@+;C`wEQZ~nmN|Z<Io>rYtr{`+?&DJi7rqec3%F+G2w}>Fi?Y0TKY)xY7Xys^9
zkJ-Ko@<~M3)40(TajdaVMCnC&879!+9kZ^&UCUs7>yFB<kWZN^vD5n?g7ySOt>?U+
zgVjU|ar?7!sv}H0Q*wOK9HZ8DdNd^`SPonAYoSHlR^zNT@L*&W2t_r-TJDnYs@D^8
z)F=K^qK!x-&JI*4hdBYs9()krj|wyD;<ZM=QVglND5rRm`()tbghPfj@EHP+9c4X3
z6*n{ZP|hJ<zmxI5wGzzmYhJbwXr_oZe3Qu3HY3bc>)z!erj60VVloj$j<>_YXWE5A
z&HgPKXOMgnmB$}XE*-rOKTo0SSj5}9dJ*1CbJZe+u`Az7=J-o8l9mFT&&PUa$s>7=
z7~#8L7B<ztT(wLc(xFdA7!x%3&;d&rbyQK}S7{}g@5ebzh-H~tF4C)LLEk*HWB-{m
zU-0xt#2cC)%j%kJ*=B}$#|1nI`bp}SFNIbQwgt71iXnZSzd?g~Fue0kRmU<^X3nsk
z%>Yr}c<~+ks^UZ@1=eY{BH`||nhC=%?^c{_j&HJ|+(9*OtRkgSi}~aK0#ZP&zfq}3
zXo&9e?;CDzf(x8P`o&>(dEayLkdvGM{<gSVoPRF(U3U28zU2G$flYF3XL(|i7he8-
z@#A~A{}C)7K4QyC8C~OJxMp<f%r_(vx6Bas%gcus9;6}52o95cGIQ}e+}OVrV9Ikp
zWl_STWG7r)94zycJjKzPRD$g}SO#=<?|fWf=kJMf5^#z+J&+{xmvmWPy#8r2^9Lf@
zam2kM!zQBrIpW2wLg|#5J73G+@>=%GrWiDc09%t{6tj?#$HZ_LtJkmy8n$G&Jf$(Y
zJ*cl0^aG=(^!A{ER#5Sn$Ow30G5sp$d&a`tFlJcBJb&q$l_JU%yJ9vzab_pv8Gbj)
z(lCMF?vxp6+<y+^6M^6FW~c2odVvf4jBqTEp-WU{QZ6?|*~*lF5@ZmjH6EbK-!gi{
z8E3jW6-G9}JqR7_3CW!@W1tG8A4HxxV2w0;pc;iZRMZA%4a;UZClWZI0_g`)z(F-K
zIG{!a2NbozO#!_3p*-V&3Zx%I0SDE{;D8zx98lB-XZOpB)oz|}%U*>Uu_kyE?INCO
zX(i?`0n$!SAr6zM@L-xYJGWou3)N#x!wz~-wZso9K?X@G451>GB2?Ap7yxRX(pUlk
zR3QBz3I?b~E?%If&7e<(M0Z}Vd+M$U7a^li3JeXI%mXe{Clg$!q8vU#S$=ieOUN$d
z(V1ZJKcF;72|3{Cn8uZ$w^u|>uV_uGfX@-%TOK1tu2qYTIU~f_Dp0IM+eX4;ZT2(s
zFz7HDydEZ3xO(1Bc@99uP|Kf-WdOCTlZCmipsw;Whgol+)=fVKv)$_0774>__gdMC
zy&PuyN9U={6X0Bkp{|!zALg5Au@wvHur2JZ3VJOB_l>tILr(I+8_5Nred?|vl_v;5
z+TL|p1fA*kn#v>al!`DNf(0FdQhq(@TUzNim1mm%R44sQnfIhW)uUfmxM}*f7X4;9
z=}F%Pr!TD}rr9G<M?SAJdVfFr_51nL@##B8Ys!eXrpcKwjvg63_Pz}+22WTRKcM2>
zhZG!yPF^y5$RRK}WwkVA=YZICptH9}?%hXO8i#ptEqQ{FsOx<X6i2U^>!se5iK|u2
z&A!r;z6U(){HH1ELC161)q?9iawIQrQ%#rJ&Igjwn}C5%O-g%7$CyX3YYlte<+u}q
zbxf0He<(sUB;Oc+b+2<*{+8EufKNIB)S7_@!N5;YG8VtPN`N))UUf01bsi2MzrT@`
z>0(*++m_jjHPzJGxY6sF-D7#Sruce*!n7%E6Aqhx^P*yaYiYg5i6JRV=Ek%g?SMRn
zUkfl9lY#tf6%gAoqcnrNieS__cc31_uZ4OyHiROq0%1QoX3?ZyMKEgdJ1~#o*TNi)
zUDaZhRT%skGr*-cxe8%&9O$4tf?W&pVf48yItK+oJRIScT{|{DU34%W#jr*BIDD+S
zG%xUNF9CEGN?)XBZFJ`8fI5a>iz$VDC)XW$3j2zzYx@`WjaAo{-Ev;<bj@x%hF$yq
z1J4#?!h`4mtQ2_K&7E0y;ye<D&-^2d7w{z{q&we9NG2qi?z!<1b^&g@MV6B=zkals
z-Rx!2eL)j!J#Se{Nw!q7_j2F=e9RrM&u;SRZ|8e9@u##g^UQpf*cqWY^jX*OjK+XL
zc2m$ir8ZES(moSO#&^HWKjdlZ*grj+L{aKHIiq1Rb_VjlUbpT2%ezoy+PUri{_od6
z@!-v~{FH(@ikaJ?<06KH<riwaz$(B!2r!<-_iiy70W}<Xz+*t;Fd+;AVKK)w+01&K
zWx$#8Z=0o4NbH+5j!Ain8>Q)#On?N2@hXl!5;_IitHBy8AdJ{|Aw<DnWKip!(2ykT
zFEI(eGivqthgN$mpSPO(U5&~71mAoIe{LgTjJh5E5e^Fmm&(cn{r5LAd3RrXKlvFM
zO?@vWK24kUeZU*n#R~J*U^HHU6*Liz0u5^6(KfRd2bvK!v7Y(I1-uMkx?UxX##<5q
z&4nwhuVQZNHaodix!#9XxgUBn^9R!^cb{mLd(fMi4|+4RulMSns7^VvlLT7zZd0aL
zZ>F^^n0Kk(@_Q`w=4W4X`8^jyt$Kq=q*+gEeX)8UdV5;yiE0<r>q4#PsL(oAvIY=`
zdIcHLnx!`HmGsscyGx0$wWGIh2nD8BF^$qhvtq6H)0K)zt~pmJVR~!M51JO4R>j9K
z(d*-Eei-!D)#tR(I~KP2SVOay<D(7TiV?{tdKHTd^!8S7NvPSc{$~Pu9|t+SN7j6+
z=<r)b&3B7V@0$VDT9l3$J?d?f&P#{V^h>Lx7(r^j$^oN=uebWVB{>;sZI>-EZk_5K
zN4Dh1Rc~pw<OoEwrg)e?fK0C@P#+S#<th7Uy?NWdBTTy&YX7@{oN4Z>+XIM3V(v<(
zsH^%;&E2P4R$jeT$rTy=PNJgb9PZEa(u8l;%4qn>@B5r*e&jB>6s@kuj6!BUgba`7
zaN2!>1hhjjOMLNM@d~jWg(F~L4DE;V%LUw=aaVmazxbH=hC0;?APVD<59}JR{Mawg
zupY&%_wD@Wy;I|572<;lAaM`NJbNr|;WrHogn|1f>Uq_p#FeHGGLm$^JT#l!+$V`A
zRz@tpHHLN4^M+TmfKj&q7Js!n7H5aa*l1=&;xlgo5x=2r6m{verZD?TY0%hP^DI%_
z5KQ>BaG^)6Na5%H_S(wfd^1<I7Lv>wU8CjU7_)Gd^X%Y17!6OjVVTgD=@f~}PB3Ma
zLtP3VlOJ0a{lT<o;gHvJW8t2w42V$-$eZ3u-4wEhx4!meTiM4^_R6C{$dw98#t?A7
zs;=B<c9Pkmr!baPaJ^UAQ*!P~Kf{?#%d5$W|H^%@Tds*bsyD03QVS<bgM*g1(vVjQ
zP@@@e(2V)B^x8}q9X8=vxcM4Q7#}pD^&sjeiLi}0clGc&DwiznRlo0CnQ0HxZwSn8
z`n|avQJ>^;$tsrU)=Fz9&BV>I^OUK3<iiU_{{l;vengu!^D1C=hM`{3#SNl%RdFN9
z+o^tGKJ;LBQA#vl^I}!%HDtx2wX5hp7FWq;xq{{@!g5;T3c_kB#+8)gm|R1-oE^D_
z^!!P_UhVc65}=`<8-|>(y@^PX!?kR%x?+99{6<c5bE|mJcd34@0WC*JtPDIZmXUd6
z7!<^a*cbU`G~UBJ9EQ9HoFVa>X=c48PZ=K0?uLjw5jP|T)m=j2k|*k0R8vr2fFFXy
z2Sl(fz^{~q>}mK1e1?aXLrXN;g`rcMxR$^@^T8k*u`P)gg-&fEU4fK0_sGoqgdag>
z_TdwadHE#L7VhF%q)Os|VP5j`J^_izy}T{wiI9LY=+JruMzDY)uGTPQq;K9QF$Ab!
zQ-R--1QRWuVi*mHmQ%KvT=jGW5oq5h0eoW;okxg=fNEq*Ts2;Mm&~?cBKl()8*A7<
z)L3*L%#R6gx^lrVn?N4^4}uM)98=0{bdqrd<-)6awJgL!*p4Sg1vfi6F0c22%R?Je
zE<%Wrc?_3#k9@rk$k+RTe7${S`<^H&Pej_{0&i1>44mOs84(PN3ltA1QGtEzJbW&O
zxIhskf(*nh6swmMF*5N3+4)=dafX|XGOiVyi0pFIb9Gdr2t7q6ibwF6L=`-Wi&QJ#
zaglNc02wJB?IR<T9Qnf4N`6$N4Bf*;%Gf+?Bt=KcmHVhj8O(-@l(QeG$TA!am#G%a
z<1$r187@;rjNvj>NEj|t#e88iMNk(mvz(X2WX?mRaG_-k6fSf=HHr%@13^%sWtb8w
zbP*DSN?nHE;9?i?HMrPC01Xm$IqBSx;|G2oiSgNT=B<m^_3xOl$A&k{Cx-Q8i#eZR
zuLr-mi~yZ4bN-n^5c-7SXMTHGYaY`e9EE64;};t3vV74q$5qp$h{cK+e`SlfuBN_y
z53BTQ-JPsTu-?6&sub<c7YX%VWX*dcRZ7;oRnZQ~I(H7Ll&p8lnJUTJ_Y0^Ltvisu
zN>oEwu#!cMj$K2dyJu71rn{ATb$17*zMW#L^mKSFQ|k_Em6G*t%~d6-$AOsI_fSx>
z$89XIn`<<Dh$7GDb??YkxjVy-n$&N;`0{Y~AD)tPts4+~oOhct9234X@EHU>{;zAD
zWZE`E0p_ub`!eo?kjB<V0Gqqi2+q}53s&4C0OtxU!VvesM`y$50fu|v<8$FFp@Y@<
z!;Qk;cxyvr+0M=bIQ|6usaGs&+F2NDl+x*WDf5gZXQgy}`LdF;(ze6ggE(WeGPPH_
zf{o;B%gk58yv6HMmTS(-K<BI&O4^<lZjFI$X7!%aoiO1yv!^6T;LB6i4CQqmO5l><
zlO#TPA_CT1$<W<tnhl_<HhHoGIFzU<&&v79r`TtjqIP)cXjLy9C#eX6^%CwVb455@
z0a{gKNA-CL!c?CU@oR7D=6Y(?kyX9JC(UvzplN2^iVyK^AD!m}yH|Kydfxnr-ol6!
zk?JX}l_h6NarEiFx@q^;{@M5Jk0NE@@={Ud(|%1AWcgFs@m#Fm`?#+D4|ZMshwJLA
z)d<(Lpq$0OvI$~}{+cE%=8!Hm;*|c%TI;X+<pv7UGp!Cojz+iT<?dpid{z5&%Z_Sw
z!x1IA?o6e79q=BahzJWm`Cxk9v$0g+^TtUdggtLqvu|NojK#N-Y(zW859XNHxpF|y
zCCEnHn#uF+rTkmHZ>vI4rMGY7r~E!wjn7lvDy`!s&4XFE@)o(hJ)9i?g%Qt5@hQKT
z685PQr`X>*3}4=I?SQue)v8-%>z@BzO0*FqcG|z6Z5>^MTeo4JMP#;8hrJV<Js$#B
zRo}B({x0$Aw(o4Uee0O5hf1l*zC8T=-B<U1D<Lhi&{n;q{K1hwQ1#NhCQnh~!$Za2
z>Zfd?vTz++0{$EiI6uFqr->Y2L1)LgBzMClsaG&Q7L1(ZmwuP!wk^9>j8b>I)8jw)
z=EYgo8*Ugs_5Z6#m_m#kngw{;t(M!4+At7?)i=t?5H2@Rsj6C9ZK<@|n~@0<)=FX<
z+hNPw*Er#@ED%ihCUTPb{u$dd9>e2wJY7%CSeMU(znho5RKW&fz2Ri3L?gpcQl$~x
zOOO%x1bsx*5_3g!)Lw{vBEJzy4qi$$H$tR^7Fe;G8C)DuPg8RaOsFv`m5Oo0_;PBp
z0gN8(CpK>kwn(ua%|;@dkS|jpt40_c839I=b}s2m%-rDcDacaibN&6CzrnmI3RKon
z1Yzjd%zX)Cg?XbiTO)9My+a|s4@)c--NBJLE*ZZJrWGsDuo@kje(T<@M|lBCw50y7
zQjG=<q=xJBOJFdz8z58|xSa%}5Pi{*ExAy33kCOPqt>mqerfFs6UsMj6}Nfl&Ffsq
zL+L1AemHMx3Ek{n9G(g>ioz2~bjhSQ<DU=&YiTy#5I4#jx@YAGTUcMdkZgGF3k`Cc
zn#MP=ht)QrXyu9RtJ;$r?JL0-lnU2}1LMY~*=PHvUEXNiHp)KZlNQ-$e%c%_+ILG6
z2Ab9g?p)}#4V`WK(rZk#p~`?LZUs^s0(U#Jg|07q$3#hP&m*dJQ`^Q4@54LWNS4S^
zv0M+gYh}4;kiQ7A-RkZKh&3u$Noro4&QsqF;qii}U2^ZcRolDX-zTyO>^xl++J)>g
z`bgE?Y1+LfKi$)fZ_+%z7@dfE--}v@I)J_oPEH+_50mWq&+FIv*KbI2+h0gt+4f4t
z?&-#zc-T|wWLN4RBkUJ-Y!h;1cfc@OeO^Vl>a^qk4BAiEKjtv##DA!TJNdR_us=FK
z$p^%LpAY}J#8y8($o8rx{i;Q6h7+b`MK{}Vr(B<vCax4*O%CDg5kP>r!bv1z`9WI4
zMH}8fM$j#P(NmNQc-pmEZF8zP6rTM@@-821Yxlad*X>yEop!%u0z{?NKtr(g-){(t
zKm~ImJDqVXaGoc5&dE84M6{UA_dl~en)CbYeg69w-u(8L(;vt%QkH~hheMW_R=i8+
zeBvVS@0b&Yw_cV9S&Hdw&Wk@`diOAS{rB^)-SaPGhY2HAl4cIWbWNN^@%c8Lil<)P
zufryMXQKnMvIG4CE#~+0{Sl&d(<Waj8>cL$Jf>@7B)_5J;%MR_h^ccnMIqj9Z?n%h
z)ZVSx$21~ePynw65X2O-0~En85ro@{>m<wKgaR>4vo?wy;hQ9CtND_dNCis7l8^kU
zxb!DW^0YKr?fs>nOdgycbL4#F2`4^J5KrC-&Bn`QDZiXAjV8gF)&tT$VMgffv{;?i
z7!|zFoaG_Eoj3r_cbTVKaucmc5+ihp(&ZaQa3nIp#1UCzDgT=!IgJWF5gQI+EMfk$
zNEb2_OszHH$Cw!sm6FdhYKJ~1KX@r-St*W-?ByXPhWQzbXwErGw|RC1z)A?7@aux`
zoY6snoZ<#K0z|3+PGP!aIOhKZZzSY~DPd4h$d=uXc42bbXpI@JR8gz~WwuMV66xZI
zG_e}vi4`&Y0z#&enmM$XsT;M+n672U)h+9#YZa4iq-QFto}Ou5lsk3P@1;`R_EM2l
zwl-@%MU1S72#ZiXBuqmDGGPdF&N5V`Uv>MA>f8h1Muf$Catdi<6k(2q-u<&~TN%<S
zlZ8#)%$HV#<~wQga;-8gI#;Aj;bJ+O=tA|HJfK_g{fSuMkMxeMl}IiiNIN;qSx2+%
zg$dmg#_dOz?BwGzwcIg=4^w+3E_M@mMITN{Sr={8P{eyK@7cvO;^qnEdUCVT5k;2C
zGQBxZ^7EYPx{>NFh+R(Rc^ij%El3}i=q0EVZWDSMsvx)Sg1AHI@=@nre#-A9_^}K5
zKCrsFz2WCnV!H?-srM-?I$E4EG8|ZBIHj1fZLUW~2Zu$zWVcxiPq<`{IT_C)Lirs%
zl&@|@D<x$<-8YQ;JmbkudcjT!dH-J-yeQ7nEk5*;l=c-|!Fhp948b{%`qT@Sn9Ak6
z3RBTKcZGc)Vm<Ob<jD?!vm4^RldP_SoV@!aru|5vp>G&SX>H+JZUHiw0ETns1JhUl
z8e>%Ol(`*DWJBjud(8#VIFR`?`&lrT3!T!8iWUb<<3VYD78_7tnlY4SPWBqJ88WZ8
z9N0+i1|)-3Yo{-R8LAnq9M<C0&)$;Ai~#DD+BOZqD<ObpT+;9jm?Z+RG|K>hgn%<Z
z%ToZZ71TSmjt)SxhD@owZ2)H5Kqpn(DO0C02XF9Xc5UPUQ!xkBW34X(n93R8Tcy-n
z{?_0k$=c8m$pY>EG}cO=R+g$(?OLLzls&joa!3uOY~^jqruX|~vOzNG?@1r&oWW(1
z^`;?{1F5`~<NHK%R7Gl)CVh<*@}G}dI~}n6=ML$KYTgY;xDZEFy=k8#T;&9KxeDny
z#05CSFbj|T#w^BB973Jq4e69qRcZLdgZQLc?tMP-U~OsZbw|%5<Kesbs<1TV8bjo&
z-h2Aw8iNw9{#omh&L2GC$`-OAlCLOIBRlqK<byQQKNvpJy+GD??Z^+hx_ew<!(3rE
zYJ9^PYSOu=y=S8*9UgQcwv%>aVi*(@wXF`lnFWI{9GOiUQwlWBnXj##03=gwt42?z
z@VZR5!fPE?Uy~_Rf0b%4c)giK%6@6Jbb53|?@axgY(!bM3w@B@OjfFt=QAWdqBW$}
zSB1Gxtqu4`3D*$cR1q6N)Q9-4h<H-B4=YppNuq-sc>vUvKCN(<`U0HCcsu=AEXdR(
zAD4fKxPQHR$gCU>hI6`BoQxB^JDo-i$>E83{l@Yis0w5WnjrNBc-pmB+j8145S{)J
zzR1{*A(siAhGwA2kiP5)Wic+c<dNhA{=SkishJ5_hV%g;TYJvg)vhjv>3H(?Fwxg)
z{Ss}qE4G${Ed*-I2}&vCM2`X>x3(K_d>?7J9TE5j{b04><oSuNo|9j<_uzS@6buT=
zr10Y(xT!7AW45O0-8}e1f372P4}|8qV3E=?<7qUj|ITM#U)_vee!qV&W={|@Au(7M
zI=PZ*RUp^uT;k8Ec~$HXUhqhz!ZFupPs|kmp^k$>W9hrjVdzF@mAg$NV+vG%o%R7?
zXWE?kKBAdiTkFs4L)?^dSelF(S3R$&a-BiOUvV=S4L_hAxr>_Id7jl(CFLAn4;}`i
z`0L0NwCLuFfJ118H~})Yfm!R(0*D<!QWxv4KQM1CYlnmW-oZ!<V4^6q9HAcU1CBF(
z0X(!*(Zhadgccdc9Yn!NPzau1qaIKxn&Oc_kIXvNx>Zp1#F~QQ=njf)Yosp6ib}g<
z{l?h>H3hmfNW-F6&T!JwEQHcKqFxkH%Y!^K6#d-@{1ykN1;QK6D|BQ!*bN43g=`Is
zD(#N3PmoGcmF}3G$M&5&rs7m?`(fI<n={DQlA5}g{iH%_mRnkhO7+B<4ss9@bXDf)
zjB9GoEOAkST&W&F#5I%>8NMQC?uv1pXmiq4Ov4KE5}l*;16zhR$odjxJ3Ag%g20n#
z7Kd2Eg+vL}qG)BPV>b;ukEUKU_Nrrl4XER4Qa82fTn$cd;G_{aai1VJxTsRwYbd=g
z%EL3EFLmd>wbO`hGF9eudu2vudYhlp88)^pCI8}iIYR2_zSp21O<DF62`=)Suv~B?
z*L7R>8`|(ovU-%BbkQd>vo5BT_ot5CCS-hs*Ian`8%iDCNl`d{!i7s?+sG&G`8eW1
zn3)4NvZseu#+y7xraj+$7KyPLFdL6d>MLNjzoN_)?Glama7W!ZYoy}6rrAX{`<h#v
zkemLuAX!(C;pGAT1vGy0rKxV^4|v+mTWfdXHV{4iM;O09LV$)gAz4Dw-G0##wg7F6
z<j67!{q>b(9`42tV@!5?+QS;>>dw{7Xsm}p)A3|;n=v$zSK0IA=@GA<!rAZ|Syn1|
zgw{9`yc;ZVlFV`RJdu45`8QM&ffGN==UIx`cp~+Gs(o+J|MvImAM1xl<V0K$o2Qv8
zFk2FLsz1LEhYI!0d)uy}XVKXrJKM6~&~$P&*?i49Xh-t{z=^TMK`JPdlr5En5Lxz!
zk|fR^8N+K57ws0Ca2E3Zz`dRz_a*0&gpwo4p9#x?8K0Sp<E>7Ajt;hKOk0*9nG`gV
zl(VvgKuLI_*>v~UvnAk@65jP*nYN1FPg?Z7FueI%ZPbg2pc~?+SY(A&M_C=1n`4&d
zCg3U+Tn!-Zz4<iP0M>G6Drg&brZ8#Jrz(O*7BV#Bf`2*sYJbOf&z^gYT$R~8vNt5M
zpGai7<s%16DZ-xmpz~akp}OfJt7E$PMH7|#nng8{vzLUqQNkH9v?1E{-x;Wg){K|}
z?_QZtbG<VXH#8DxBSV(2n;Iew4Oty+=|PG-l1*(b8rllAsYj;9VpB`YroDQfm2hLv
z@M`KJcN`NY$8{AnTBo7PJ4taed?CXwd8w?Rs*1nAUu0=I>~~Qe#50g?33FTNri5zu
z*vM10U&Y$$6r<{u%9U#CHfeiM^<gVB1WmK!INV#sVws)Q-aWPlNv|aF3lgSEKZ((r
zNPLn;gA9#Tl*)-|d#mnVmdzzXaB+&DKp6&is4p#xkyoT2<&4B>xp_@d-TTEufi`<X
zGx<Yof-@K@qH_*SrALoMHu@k*J(HwkCavxqXDZ>)K3R_h-p2%iA{Zqce?(EupsGVr
z5pH#v*gJI2<E?7!H*4%38}EI2g273#Tp0@IUR?z=LsVC$Qp=Oi*Tc|uK4@X`w>nBE
zn-%3soPZWGtZrc<i+HNi`a}~mmFV^|AWp(?0}jItUtqWqgW-NBFx+?n!~yNz0PRkI
zxH|#D**yjeu-)fxFyLSd>#{xKK#ey9mNfP)2X^K*2Qp4L5O|-@VZbSV1p)~y#q5Vw
z0tEscJ`-CQ@G*m>qtnYJY(P811j?!B=s@HPuuM4PbqaH)bHjNGL*DWYut#?Ss`E|&
z2e@;e<QWjDrtL7~16flbQevRa**1lF$yFr_=q9(PE+ZiH6;s$)cl(0iXBhMf3t;hb
zuee$WL7^;zvI;DLejQPUVaZ=im7q`=t$<L<fVt}4^Bnl#a#eYRri&_&U}%CfV7DIf
zl)wgoJEKVqjMhwm^VO{TVbH%;L=Y&HCP3&nz3B#mdTMY(rzBpVM0^dC;0<_^085cK
ze3L}L9Om8h)H)FMME7(l2IiMHZNNJvGKcEb1sSSAVI_^ASiOw}!|GDcVUrv0k!5%R
zi?MHtEwFR`fGlvHz!dwYGC`U3BJhEvKrj(eu~r0tP0@kMP@bdz0GDt66BRNCR{x+k
z&!oV>Xb0+HC6)VNF$@M=s{es~3`SVO$4PLvAwp1KfepUoYK09goWTQ07T_sNSoCrL
zTwH{^BmsIQ)LNc!@*kIf9Z$xUyAYi;XOW7%ByrY39hJ6Yvm0Y|?hk(`Zq^=FIr>z~
zllp;_`H?ELB$8HlB=~x)kGrH^=Y<RP6=`5;KL;erx|}Fe+4a-KBfE=cQo5hzpMui4
z$5be;8fRrr_4X5aON*U6@0P6RMAWHRsp8>W>yK42cR4b<mCQjx7evxE*>BJ7zcuE^
zCzQKm7L&I#h-38OKCQRgr#&-K`mgB6RGD0z-U|)t_CgP*mZ!HvgZk~zGRx`xzK(K2
zaZ-8(%<}M%<sou)N@nUS(1BJr=J`A!NV$x}mMV1m+faYm=X%JLN0C0o=^PJ|q1xh-
zw!mo9TRHz5dCQW#P$dBWN$zVJSpSm)tGeGrSX2^rMpOg3QxNQ>I9kg8Lq&#~>WJIv
z_|!-(OWHm^!FS@S597+Zw4m;fk7TQ;fk^SLDbqKL+0eOsU1xVJLe#(d9%7u4bt<<l
zdBZwha{$$j++Gsdj=_x*f<-$Hk23WzYAM85T|w)-B}=$a33~~iRA>GrczB8o=D?GU
z5QNG-Oc<>WW%{L_JWWV(=6DW^&B*KdtwZw%<B#(>HhR_aUyk3Ka7@#wN;dOGNxY{3
z)iux5wJ+oS`%2{qHJ;h)x_GE&CNdh<NRNN0vz2lxr1){Mp|RiC*ne+iHYk~GIzxE>
z{0sF41X?K%G!hZE5Yg!Q(nwWLsoIJ1HI+F+gsSS0H>?JS_J`#U_4R|g+$*vZ!WwD0
zE_rA_cEGP%HL~<)eIA~8d6nuFU0~LA%2nTop}A2W+aLjr$3eNnR>yondO6+5DsGd4
z7Y_EkPRr$^9hFR7ZU+2oC7fA=;&wVduMUxx!Y-Vhi;|pk76cay*s`UN&x_cqt+ES;
zjDDo&@<rwQ@xdAFXGT9iJ)YaB_`KXmTFJU_VytV$Ts|w(qb=vxWP~_Z!KK~4Z85WK
z<&E+Ss7gXw^J9%hJjXK<vqx0!=)3vbS=I{FuBaB0J;Na^2O(5`bM++E?k7Fy(0SMV
zLdK72mL_<6s=X&yg5ctWYClJ{X69bMct53Xg1lHucR=R(QeQ#M*iFsU57BRF^^ZCV
z=brK>sP!S5{{qkv{4VoIiVAqz)mm+HsyYy!`;Q0^l#iui>z&r?QQO;dzhojrOXaO0
z*m{5c*?>+3ky1+?osKa;cK6vQo6V9+#)IMNKDi;+$#VGkK%XDYseMZjih1OafI2)<
zhr%*Q=gt$1Q@@j>vm~bBU?}7th+Xxp-~YY+9ZVjG?nInvQJi2-!v(`**}m8|jQVZ7
zub-VISJp&J*5O}78h(-r<|}h*Mph5s4heouBf&KGo~u5D2%%}TWZ^_`MgxGS5v1?j
zvEKz!XdJW9CDiu^8=xf!NQu+X5h)eS#UtwRM2@r29Z|(vpRQxJy~aZ7#@A60P}`Pw
z&K<sKQO^3|6<=Ja54uYQ#eI+Y?j?KBd8FK<p}15Z*n7;8l1;-S^;34qe&{wd7wSNF
z!9vD8Cqe2>-WyRa4PCf5S(?pUv7$6AEp>h5r^#ix^Y1g`Y{Z%CIWX>0r^ol^On3q7
z-fcSPGcN~f4qX-}UFy;pz7u2a`S5M@v#*Vug+>G?zUSnF^#L^1%;;1IZeBs-%~HYa
z{*6M$cL+WTu{1>N891-ulR7`%%;KW|q`lC8mIl5h816@owqlO<$ed=r*p})^;KOTK
z_F-~BDyHJO6H}geAyg2SN%RriL8_OKAaY3});?3L*;Z4P4l{9RNMz#u=qVQdsz{=c
zW2DegQoBM=)zo0mWuf@sre=omKn~4fuS>9$V6f0+oAnjAD{ZarEA6-(>S&mCOC`oI
z>cLeO0+vp8S1v*$?yaD=4QF^>uATH!0@6bE1~-4kwu~Hj0PTb=g025s2%Y>v{IekH
zcFR+eQNPdW#dO*l5Pb*8eJV~J6bH<oJT9tnoFp{rHmOb$rQBf&W<f00*p}_D{W&_J
z_3>xco2Jjr;Hu&9O1e#%DC;mXgEv$%4+-UqhJxmf;7Yz%L6y}^v`d4Tw;*C&GrX|p
zA)qWwgant$U~MXgU*%QJ=;HQ)Fm)UjgPnwA4>HN8D#1_diS2F!(a_DhP(k1{<n*m&
zrJHG>;rg&*T^<qDYSt(DArfdd2cd}MWnyt+BgKPDA{8Wu4dgsFz&<#z96B(;E5?Q1
z=TUL_Bjq7<p^B8FY<&)ow=mkP2aJk(Ah!bb&Nm6gJA__YDS1(=NIhWZBdOqRQt9RC
zwNp&5>L#yFIrYS5z<!dqV_9bhzby1j>^oxD9~uJdY~Jn37BrjLB?(fg`sY9&*b&YP
zxha7csNPA|InuF(+_OY_C@9VqaD70WKk8Dgc_Q5H=i|;MA9p9rpG%*1lQF#DwVful
z$~1{i?Jl0AG2;baRdUqkT|QyJdnXJ=e!x&`CZqJ~b536nDbot9R#B>+oYHF!Yo<V{
zb{wU6Bv)YOW;g4~V;Tgta^_&j+*<XGsZ^U%shyfi0~}^NEO4oR&snXhv$)MApLz90
zFw8ioW{>$^An#Y%{jOQPkZA;gmD1SE$9|xf_5-7CKQO8b1gGf^fU_MS?}M^hgzX2L
zu?aR)X8!E|PK9_QEuYNgIU>u9dd%4J=go9nFNuA+d4WotYGSjuf-h$HiWds^SnXz}
ze99R+q?#S88sG3JjlZZiBd}?D-k;C*w3eoCel!a^iuYMq9IJNwQ;jbw{+x)S;yr@f
z)LWw1J63f$hW9|XtGNVwd34C_tdBj&?P)E+{r{6+0fAU;CfA%GHX+`GM}7Ns%xsmt
z?gRY;^j#wr%R`3=c-p;LU6-Ob5Iy^k1o?by?VfG-te!rzcJK7O<V1+d3WQCfPXGIb
zsC)=W3Upr-l+;aC-MW<o^nEd19OfJ?#FXzotzTbTZ^uSoXw1K2XG3Db0*^1m#6r&R
z=R3`g@Q$G4mN0_65brq|O&s(alD2*<M3XJcPsbjJldvEbLA;SBHSJmcI*XINIE`B$
z+@(t=&*tj_ng8yoAg-WD&>e}nv!qLTQT%iPKFk|ISHUKQOR;ohO@hrV7MjBdC+t9w
zI8x-N{|gQ>FpkL)G$5NS7pdEu(=cwL<`CuKwiC?wDMmKZjOABC-Y~<_gzjTs)3bjG
z${q;GeM}lBlhHmDL6RG_I!R$7P0vi_%+N7MV$W7|9q{ehj18OHXvuIO<h&f8B000O
zB}ZjK<3EEn5kYkFugF$6#f=ihHIcfNf#Znx8LxXZ=3;<>ad>uvr)d#=EEqfq1A*3*
zp&&}aJ|@gk6#7oXDo3KPk-Fmau;S(+m4h2c9td0E^cj0a#F3C#KKY|dn7(%~T+`2U
zkerm_(4b|LXLKjHtNQ*Q0RPTX^TvoDcvui6z*||<i>#fYpPnb5KaYPzf4w8aqm0--
zS>sf%?C10M`Tk;GRdI|eQreVEDLLkw{4C_B%VxQ=8Q0SXcC`~AAEDbV#=Nwc*+R60
zX-pGtVit(4JKu*-oClkD`=X6fsYh7e-NdSDt9y}Fe!^=+Gy*}GB{C7`PIiq2WzOt;
zVZ`K@C_w@mLsi&ivfS2WbsI0|%f9MkLz1SoA&*mJ(+g=#<lHeT%Eu{s-kkcuIv}hi
zx+eqXRDR0q3#<!<b#s*fgDI^Ha<<I(;x2^IfU6uC&<ba7F-C(i#$8_4IfK}O;cTg?
zJ1}`M98#0|K9!vpj7NL8c->E6kh%&#M|l|UBWF5LaT@5^mqlZxg>m8Uy$W&+D#)td
z+$zN}FqHMy&^MBXN+h*uwxqoyb&NsVx2|X!P+_aKg?@oFRRU?00(mb^nn3Q9_M1ce
zwR-PzyV7R?9co=n^mEKsN@SCk0oUx^2L;!eE7&u{K?jz(mhj%npaXQQ-fjDN=Blje
z^J<^9Wi8#nr`uv-d}B0{Pb@y(@%F=AzPzS$O&Il1ggr)ebLNv+ycp~B!O|2IdcRxl
z{YqSF?fovW5UV7*l|~nsMmt}>T$~w_%olhhuTC9car_3x>)NunLcPLWYwGywfbVd?
zwq&Y<e)RA%2hFM!3it^JtTjV*w2re119VpL<om^01@`^wSp}fNEmW_9iPK)=kP^>q
z&!Qx}$Eg8U+EJH1QIzZYk$6R)aSx7Mw_SCPV3;;v_rY7@jG<eGhSKVny43?yS9Iq}
z*1SiurIg<qC}fjT-@@O@pAU9vNY027TD`c{slEokJcA-^lva1uLn?LaTcu@xbt4KP
zS<z@JBnut~D{1Lm-T^rmO{~EG^H{Hqv>d#ElPONbo>ifDJ)nn_K&XUQo$wI6NC~eh
z8i3H&*JqXJ#*am>c9RM+?Sb4Y&i?^NlzA59D69u~+Ra#9bJ{u(o&F<)ZHyo5d`#16
ze4B)JlD_N+dm+Bq5|soO`s*u81`IJE=VRu+fDzhrR(n>v3vi!YB+Eo4>O#(*2CMaR
zIupG$cyi7BIaSZYxyYHy+0+Zo6U?bVrk+vee=vh7G8B0VR7@A8UYET%gimk+by%Co
zEpoqSkyFm3+9EZ89%TToV2O$&Aia^Gxr+IMW!7-Aj7AZUFM}@$1iu$tVWc=HK0_vl
zBR(<@yQN+{Hss6O*1%*`QBBl`!F7&BCcOe#hwXl@P;}TImROEa$POmMTmqJJweDo2
z-GXwVPS})K+mPTp6%rGa3bR|i8Z2qCKx-<=5xop&s8dK<sX_=0HzCy;0;45nuf^~z
z#)9ooj-G)8c60R%Ri4+|&));m+uVaLM#LKZ?q)UIQGvv1buFBY`wc&L*VElR($_J|
zRn8eLiZxg;wGd-I$))=l9Lt6~US#non-&OTLDLzkj)<-$$Ur=vD<AhK($r?AxiBqN
zCccEXQ-nXM$SG6rLZVA;1THdYwyzM}Jzz1Zw#VNflyk}$X5oW<_p8suZn?xFFRSVz
zk9zs7;pHLq2D<5B?86I>uC^X&lGA>~WC-RPjk6(kDK<Xr;;lapz}6944DIt-xTeed
zc%A!H&DBLV+LSGAm#wbwFSL8Lhq4Flwr$dWVD1Imv={(@(SMV8wTrEa-5b-oO(rU-
z#hQJ-jGun}_qBZZ0e;E_n#Mj*)$Ad|loti2iu7-o;y3yWs<?>s5jbr7zh!mna>TRz
zKWu+9M~{x?-)Z1xEL)LZt22Rfwl@}jdj07AOaGY-f-ey04#U%6%vYFsF<-Si-dAgX
zw4URY5u>e!5QL9+!^hQJ_*eSH-H}6#&A4NHGD3#1-!B3^!x~NRsx5oMlH+-L_i=ej
z+|y}uh&N=>><F8uJ9m&4oY|;RIB0>br?m#bg?Tm4HBBE*&BeM_+}gR@F_LC}u7Wq*
zMA2uss;3C)bs+0<2>%RjoeeifaJBqwi9-3;f|oY&NS!}bEx7V0dcCF!-koZ{@a&Nd
z+{oUNW}n@%EV5a)N9e9k+=*l__+6<kx>2=NeRr~x^7tQ9gdBV20A7SK9v<(Mu9d9?
z_O+SkI_LNheb-A5YF%JgfoQ8j_T-M;PZ#t3uG@@W{r}9nF&#G6cCJ;Y9B;NF*T_9}
z{UMY!htY}iFzTE=B-pHhR03(KN&csvhUUf|`1%)Fwt(s0A@T!w+Rc|;bD}U5hG+j#
z5rT3lN>@8AwTk_^$wWK?B_uQnt^E5%%G$N79cQ<V+ypK{o+m?+^9E1-mwVa4zVg*T
zrVsYIjKfr%mDrRe>qWpoB%$o)M973i<ECGK=srBYUSzX5wn8qz=DA8Zv#;xiuiP#+
zESDE-d6}$0B^gL>^Qr4#v>6J}q;Bi?AGnsV@Mh@MixW899iows(R0BSIErJ%Q(*Eq
zdebX9zc-)Ab!wv#Mubuxq6J^W(scQH|7<N-=fd);#;asqgnI!GYVf;)Yuw;3_T4Yj
zQKi{mB%g@HdPGc`DEl%|GbK(hW93A}=2@Rb6kI{V6cj9fzAe(eh>8rDlBd^1^$?vg
zYm16GEZgI9Rj9VOpaIV^(iR(g&LmkuTXedUYO~ECKfTYk4jIN>3<3s}6cXCx^>?v5
zwHj?)dcUP~I!&klwd<br`W&&)w?+%Rcbq!N9Q(hjF8=MD#J5i1jj&<lf`>RGq2L`f
zUREXSP2|svR0S$M0!}^mKmdHVM4b{h>B6kig*Mnul+nPewx2quoamWh6Fj_UjkNb{
zp$E5(4_a{6gcedKZ>EUQ$g9p`%9&o^_VCvN+(}hhh`aUVn~{eK{bB5v-}FC(vd^#i
z6d%0s{sX(YBOgHi0tp}{29AaS@DO;~y<2Nn+qf28_a8-m=OYGp$aD&GfiiTyXeo{Y
z2HSFFCBXglSCXCB35oT{W3?qA(LVd==;&xmR^i>`X8EHY!5em2zui3kL@$ryhvXUp
zP*IY?0;QBVK24W6o!qcEfYDw0h|?bn#(#_8_<_9P@_}NU1o(sDa>iRVf4IGitN7Qy
z?|&BeKcSZrioJ|s8lf4g_-h@`bHq3#{MNimWDE-E7N~N6plT937`FCeKwwyt1x<17
zkut^JE&m~X06;o%&nQMka&yUh^i=zhe-pb-A0IG^GFFEv$#a~tAdwD>Ml0uI=YKF6
zB_bqH+IF*|;%~h7O%~uT%6Ez?STi)uagrpL^?W&g7?b$QzrKO~?*(D_KTt&XNrd9-
zmo8@<4EhEk_rZn0>v!~n1*odH)BL+7^#7n_Q6;et&&oQP;gX%5_3uTQo}D%POJpy~
z&&}JLVjXks!2tp}Q8!qWvvT*`kcRfo@%Wz|Q!)k<I5-{n)I5jl@dwm$_e0@rI9wXr
z0&%o(50umxI6LEgtLQ;=#va61aEI6HlE1F(Lp@Rzb>}CX@UaxHUEQXlZV!e54Tm9`
zqdcFY^zCe;8SWg-2gPVk&)to90(ZFnbx32!hl71nF4i6&R{-RjZeZix3v!@XkoSbJ
zB{ax|=vcXchH_!NGZ!9tE{yi}<Yu{h{R!&|l_j2m(JRSHD1NI)&C+28;<C^Vw}vf$
zXzEG_`chYlq3y>hD$pB-#e(gNf{A$bH^ghWF&?NMWYO>ZK=Uz#u%g)#F$_l4qJDuX
zqL`T>NKQ&aL{T6k1pdwc8X=yA_%uRfLO2>B2sQPJBM3D@RAf=kG!Z}|&}^pfRtqVO
zA#&6mBgiaUnzH1GQu1yDDHgdY3pHn<xG-g@UvhH@HHIvv`VeP5`bay;+zQbe!?w<7
zgVwc0-@68sXLHQ50vmyTFL2E=?Xu)a&>S&nk_o=77`&!`PBG6RZCDd@W*EW-HX}^_
z(+;A)s-HG&&)5!T*SFk`Ew^JU?bvt)w}J5@&XuW<WSX#GUCYhrg7uWP!HE)Wg(J)g
zC(5V|PSjF69JRyos%nM{C2oq!XDc8NsACIst$;NyGCLqcra=uU768bE+J$@<qdP02
z-a2AN8Fi|~63I2I6;f(fE2Px0R>)>$vO!8sYl}24j!~y^4UyxX*0qC{*3d@#T0t8P
zYz1w!uobk?#8yyh&)R5YD`=yYEuqvJDz&p2)EV_Pv>_I3$YLw-N*-H*S2EcU>}<+q
zL$tdkWUb(xo-%{`a`&RwHf)8uNo!qQ9=7`0sI`$NxsmPM$aZODTld5xD&9;EVWQOv
zVAQ-cYR=2GQFCJCJ1>wX&3REYYfg=tFQ$6U$7^M4(q0H!!}hL8dm&$q+H=(^+dmB-
zqz)eBdiT7MJSz_Go8|%M5y&CaJztuGW&o~HJrR#`8KK{&Bbe+x(055yyVH#MamH?`
z&)>DP>#03-{z?bDMh(s>dM@~z;iGB!_*|Y$16RKP*23I*!Op|vbphN<wG~5uM+_&L
zL7c=_@cR_NB-scjuw({yqvvSGbgCE|SJMtw*zvT-ShRco_T;{z+qb~KhCa%3k_I)S
zS@|5?%NGTiuSu3#+8Hy_>^1AA+tCA&4_fN(i`GJ*>B)=2lR)W-LE!eg8)~|%n$e-s
zU8L|N()6TIcoHc+sTH1#H9h%McrsRck}Eucs-<PPK;jQZ(fA7IS<$XD-kx=))~i+C
zj#{N(B`={YtD994X$G4pf{m2H{!j#as_DtA!jq}elTzVHs<e<PEX<S^UKAFv(gIUh
zm@6$53JcFl3!e%LFG>qUVIfmmcvV<<Ra%%UEW9Z#%oG-KrG->sp-@_wDlC**E86Z#
zGM{ID$|X1TF8Q*iAR^jCUl-4gDZJELKr0Qhp&BjkxGFe)AIQ-O<^3G=Kn{6-Rl!jo
z#<9Ass$gM<v2-_R6g-Q=c(!lM_NYLZl`A766?ub`b8d8RqO<9LZXcmk3D*TJ=xFzc
z{V(^2!Kk@F4Ea0-?u@|hSMEW04iDNZ%&^84;sOZIz_{~c{b6-3cfyvLPl_Td1+_Ek
z{OLaJJ9N7H-Tm=7%ccFV!%>}wH{2QF?slO5)M-v{!ap!;^ttM!C;@<5k;Os4;{f*V
z3!2f2V~3VEMm&PsrpGJOuI@3$_zqW-k_UxH!z+25o1_yq0$m%<XhT(BG#7HYJ?Ych
zo^fya#>HuSJK?(@YPfUS4o=iK@-(@b=<OLsRdQGD+c&KGbp&%8aniR}1ISHI_MRwA
ziFi!oUXu4JIbJUgWwq_BVEykAM`OUCri-f$y||rRC5@%+jk?-OFZpY)4ei#v)V%2(
zW$g|>T5a_=CbXUl{(cw4Mdh{L*dam8h{BF&U;Ws-uP9h}mDN>_KJ~`F&l?@Y>))mf
z<>sv8gIJ@#$UCOj_`{qS9Y*|<FPe75(}ReEn6J@PcX-z+*p*nj{OnE}M}}4IP`=@+
z>QBiBp1CpkI1-&RNaxVhxl4~k<qlGL^=Fy77xY+cUXSfdW(A}Y_a1^<`En%2-a4W*
zrJOcG={C8yk_rK@!WZkqTcKndP$O(a$zQ2H6AI8@{Z2z6Q|$hv6e6|0SII?nQWkG8
zf!!re-ABC2-xK-ZuYK6(2LSDV^x~Oa`%`hd(ycLzVsR*PkJ)Mc3s%)W+>#9^p<M40
z)@4&juXd|Y4L^wWXPDx-e<gp)_txZ2N4~jHv3B8CrQ-nzE?;o^)_<l`C4MSCTWxZF
zRr~C0>);{nyWh$VAqf1f(=R(KUr*6C?P%pA@I(@7B%G<um76EB*$DPA{6Dyp5|O}7
z!U=fV&6;g<;x-U~r~e2U8_dU&q*po@roH5Da{Z!FWEphWmQODv>94P3444pdmb^FZ
zWG3<8?6WV@u3i@WX?eBW-l_^O^_AKzzkDX^FSGlb-!Ve96cm?)N)e?wDT+rzH%mRA
z;^{}OnIr|8<WiJaX^H8Y(GAN+^BMjH4`HU%@p!fBp!#7DVv3TQVWabOG*3LG<1Hz8
zMl{1bW0mdzzB&S#k5}j~^?_`zFd7{R2;GYftM0U9q+IHL%F^F#+^k6SRs@&5^zP#Y
zqH@uw+}^&6N+jJfy0D`a;p7wj!l-?W@vQOxUNUxrMkU!WES@Ts**74}altAmR_sCs
z1)Hvz#--6vyp$`<%38nl19r0~!s$o$d?Tfhv8qWGE<U67W2|hPb__MbJ>5!h+PHOV
zbd%5Bu-8Vd?MIMEZ713hiTYQX1f#T*v2(+Vj7c<p;(Cp3`5=_*7bt8LIoGjvFL0A~
zHIa%*DE_!&Pf)Dn(fw^{eTOK<C~C&2h1icKCl%o|uJ$Fc0v7>z>Tbq@V|O8j=T3-f
zDp5~xcP?0TcL75qmsprr)nSr`v(6Tp!Nl}HG!+oDlS09aL+NfonNKdpceY}qQO>2(
z`0?dXc|#zDpmqb3VWI~>O8#sSoi!i;f+SO-*bX!WDPbgKShMGFO8iamDp>k#K@30?
z<aA_nA4Kv&3R9zzTh}oygc?BU%=G~2&ekGCe4?6M2?wOgZn%coFw0oMOScOgz-UH7
z)NF4D_hKyE;Q}E$60fRa2*wTQSt$$wB@QGBgiX^u3c#-JlnW4lJ!2{##Nm*OT<W%m
z(qSN;VrBB&)z@Jl0|bilaRf!0#6TpDCQu|W?>Lxu2FyDH=AD7^Zp=}XLZMPyL10h@
z&ME_DRos*nx+ap)<AM~(a(N78m&;@*mdj-@7NCzD(nrPrVKCDxHh}RmfblYb@iK7n
zN}75DWLRPVVVBOnfwbKmgR;#)(k`FLgLpB<$5ToeVd#!;GJLOh=wb|lKx|)Urz=d)
zX2{50Zc`(b@Dl5GV0`3k4c&EJY}AO<UZSUM8z0f>K`RxN=9OVS(&?#UcjWO9k0xg~
z!-xO!z>G&3do-(Nmf)PTBEvk#m32q*EhmKsD#?YUJ`tFjsv{COUg<7)V&g@5FM1Jb
z-c@WxG~Y5@?DC-DKfH@a(GIBEUY=`=EGjJ)+FiNseysSf*YmG`KmAeOea0~rk~LkW
ziI#+Gl{U(>km;g*h^zhO)qkLT))e|RZ}Z~eN4=L<U4qxG%{MI=i(18*6m@*<ez~Vs
z8S3BYIkd!1x;z&&CbSS0ORk#V&GWt!^q`{tI?wLZ&vf^Q`IL&HU{s@MKUhuNZNvp`
zx{ZA;I}QDzA$KY0d8wz@T-616anG%ev4{8L#{1(G3v&O$d_Q{qKd|VS1ij7rK_2uU
zkoaflNv>VZ?`TPawJa{EvD3QRGO1(tt%2TOf4GTVEpCmP{%oUOb%Z;rv0tT)Pb+QT
zsMCS9bZ~8H?O@&=2_G+4{x{@)DY6DtaAyBE|7+t*cv{x8KkfF^?yGLTN9=p6p@7ry
zc7#e$1!oZwA;$_o4{Bf)M<4zLy;stn$Qj%Oc-pmA$!^;)5JmsU)Mn{ey9Vl_)uC+y
zw3h)*Q4t}E6i6y|`t>E{B@U3oh()0TWntdD+1}9beP2I+tKHW2_2UEW9;=_b&p^m%
zG=qUMqmz83#`4;2QYf~QvD%Q#I%=GSqi`Lxs@{4ZR)M$4p=_y?2g-W?i!fM!6^<J!
zNzocTfOQ5~$63#t)y`XgfDizJpOE0wN@_cpY8M`l`S@w`>-X`?@Z$k8rVUTM|11y^
zvhAqZt41(xcbjYhQSnN2g2RjB`!n6Ugfm%58#?;aR$NVk&(`s3cYQlUHza{uaQVi2
zwYz@^i}~dKYZ0n@Hl@`cZgd=B7!C|$(n?JoG~!7(yE=~s7F#+)g%s)uZecI;kc);Z
zcg0`@k=z79?gSC%Aqg!7aV}k)i{f6D!CjP_RB{ys%!5|qLeE3Ak<j@|6m(6SXR25n
zxTF^16E1}XK8)^VMq@^NB{^-u>Hg9k6lR<hbFZU-!WeoCTiS~Wk2z}7z`=0ZqcJ2D
zZz&OJ{1>K&!HX3Qdb3#Ys89#CG{9tTP(X1ypi${TYSu4KEM?lWHA`bm=UwNQx&xo%
z0+`<{o!|0yq!-O#V3|DM|6r%K6(=+<za+P~1$k&(%y8wl7h_C{>uZWiGygweGI(ft
z$ucJ1cP>3FHd);X$)C#k6RnLTZMYOeNE&nt%NIrg<Ov)0k~`XSn3NN~X#D7t;Ghj~
z-C|v&0xy&-R2OTU&)WiRJ!=VVJ?~?zb+K$?70Y^X9a^k?xm1W%xOOP>BxuBWF;RuS
z6)VY4z>U%7FZG?1Fu-%g3wYYST3K`3HV~fvBU7ZV$NGrlOyZ=qlWF^cfhkae#X|-G
z$?C5!NL{1|Sy(L8@k1P0-?#U2u^{>Lary10oIn2hNoT*t&v&0m5G+IylZ?iq=sn8o
zp8n*yn6vyz3P!UqXRF@`7#0!Y1|0E{uxugM8|<U}03Gsdv0)hBvV;l2CJm;b$Cflz
zR5FqmD?Hth=dvKO`h=AAM`+H2a}gv*9xLz3#}4n4;a4u1plJ}ithINvF+86-p!tZD
zDoOY|n>e5q2Hi`-9tu8)FmN6WP;i{`9H+d(DX(zKE0pqK-B(CL)AWVLa|Z$*^e~AR
z>ZDgW0<Vzr6;6IsmwY^<g2wt22ZE~dP#RRVha#w|4@ZDCful_*`M(U229d)0Kw*8L
zus%>oAN1=|#;DL&ScbtSkSGd;rWhrn$g1bKW{GDko;#2<CpHMIT+keh8aU1zqu6y?
z8I?>DCtb(K&63y*Yf*cw)qOi(3A)hg)0dQCn4&FH&Zje(t}#@DecrUQ#)a%K%R0f2
zr&wx5(kG*@?EOxNLNpVRoei!LHnWr&J!wpEl@_r+Tuca+ZuqP!c2eprbHWFLl|{OA
zS0E@0C1OS-dv_x+XCjCrdM&t<`v)7@F3@qTr^lw>`Pp<i6>)21C)Tz|LzJzd-T2x<
z&11GDy7eTn#WeE364K59OVCI^W}6+@64ptX`B~h!Zf?(lv1W^b;Eo?zsb!M)??s^&
z!Bqt%aaxqjjlf*qFp|bo0S1hm4Iea@Ge9iP<>LuUdBzWu0uWvYtXQy}^o1?_VZw45
z1XanlALKv=bHsrp{Yni%ajG=K4?`Y@P@Ju}UA@%NbAxtD%^GU%w6^d@dD%i*-Ps!C
z;FWeA+M-;;*Qq^g;BnQd^S~eam?ay&w}mv_Xp0%rvR>CfVOmstI4Ie|j@`esti6v`
z%5aYEVj0e%@EoQkvja(Y;Rz=(ESw!ke3-+1n4^4{qkNd7JeXtLDLb$jR#9*k<wY0e
zLl^U|8BSx|I6Kgo7M5@t<M!Es#*b0llToH!ESyI9@s0B18|BA0#-Z4O#*2$jEWP18
z$`8+}6(XGI#3mh1q&yLw-l{{XBE&>BK+RIe3v)0YIS+Q0=kMnS(akZ^d@!<wH->Xt
zNb6u^4Qlwt7Bk!)kb$svD9(l<7}xKs#6`B?DHEF)SL~pnJ_^66X)TN-oTU@O6OtFX
z&ZH%$sU6EG<7Gx=JgdL{S9x{T&eny%qpW^3<oDa_zyDc%$)0|aC@usGbwUrMpj?*2
zPr5?&*Y}mW7xkfbL9h81j}|>Ni8cz4s<hrokBc;Au?%_-+S3nJzRN;v+`d1Eo>gXF
zG9496wkMe!-tuyh(slLwRzv`E?ZXLnZBV{sLPnKat8dWja2otk-qZOF39b&DEw;O;
z^8Q{E2V*a&Pk0f}wAQpo@-An8ov5Q-Lp*JBbU_`o1}7{ZdrtHIZPkMsNq%kFCr@$4
zx+h-!phD^n_FYUgeDgcef7pt+!HWnrb$DRBLo%A{{S%(G<KEBK7vh-C`~Z?-tNRxp
ztOh@yp^dDPc{pJSRjKCR{=5DER>lkTq8r^U_e`z&jp2`Hdq>6>GP2zg&4x|98P>_W
z3DhhIIrB(v2uWi9js!&O#Pu=YZ{V7GvCQDIsjY3{{t;OzX=&YvZw(slEQ|8p&Heu`
zdt4u)XWF-01-O+0!_9p;x<}P4tulVKyQzod>MP`}5vPvSHDeBu2{9%GyjfsB=5FrD
zS{7uN5mXN>M}i=?=T7l4n3rG1y!v+SND#z4Sf?s3V#IEUYMD{^GNY5x3xE+Y_q_RG
z?r8i5dQ-tIW4m=CKvF+AyNtJ|qr0~rd)tzime=U807yJ*$NAEW8_fDDU)&w7mzEdv
zFnw2e){dqt;Of^Yy^SsA9Vi**t2O@6Zz`O%Kcx?$_z!{Gcx}T3v;lb9rO-hS!7v!c
z@%TnI9of-LA`(3q3odV}-tp44OIs#Bz1W45*xa7v$?x)qCBH4WpSTOp*W#4NtLY4a
zpt43nDWo-Fgm-TR_eltGii*mt5_+Jq?m;)p&W3bnY%1)GBdLtTMt{Ze0X<4jMhAV;
z<Vh%cv~#R5Rw5KaslAYwR(5#Rf9MfuM+b!W+whHp--5A^VB9xmoF>~{JukC0Flj6f
ziqc0Z?ytw!dIHR(&gj%A#RYiU%~)G=qA(bp{YQe_d|Z@Tb}G|tt<&yHCdRljTulP)
z?62Ph6{Q7*5wrW^L^S7|obQqZ@Z{yMR0U%ic#9XfS&Zh+Jy4XCBnU(hkwo>_m_mE_
zTlq<+Fc<@6aQsnG=1G9#XGSoLT#t$W2Hz+4+pqT@(en$?P(rYYk~qhNX?G-vJZ9^l
zGR@J}{P{PqS5iPUX&L%aDpikhUXQhgVYq}SkSc21x2S^863qO&s^>8DS9>nf1DE;W
zGfZIENb}Y~X*)S3i(&}l0A&QA4MqW8*$?36q*h6q#a(ERPF=su=}r0SR#-5)UOuCP
z^I4-4lw-t8!8U;PgccahGL||9{$My>rH*ZtNYnGJi31$gVA5<!QyBB<MmfE$4qk3*
zA;ix7aD~aK7_&r+TNgvUuH&-uHhu0q$Sc(@dh@mQG_)U0&=`zBpHbe5!Vn{7IE4cR
z(5S$f6O2!cF-j%66eactXkc$==2aRLRph=aqQMfv@vKu*MnyS@X_W{W@*<>9Ns^_t
z{uuK8u_vI(6H}rm?h41O))P~PCr2$-eFYs|u_U_k$Xj;3E0#o8M2gfq(V@x8FX@rI
zKpmQYZKy{7$R^uutnA4}Yjy?M#Jz!Zquq-SF{-Q<-q!UmnP4<#!l@=%5$MoImNJbJ
z8*+m=OWEd#y!>Q{H}0_gS-l!_S2bo}!~aVV1yxBMa@p!Dmtk!#A9Urj^NFlhWhg@c
zV*CycLU#}?PyZ^=i^G5FSP={`h%#ntdll{PGJ54M18D(c?qDuluyj6NV)f)^2E=I}
zto;xxgD^obEXLPjX&phd&mcky^OJbUW7P+a7W#27f^^CtVSOMOJW;bK-o5{DJ@*V0
z{R0N6Q-prEvo*cl8KNj1J#v9Q-_5tFqv9=}Q&L=P2b5kxWVR$Ki<|~mvHb-Wa6{)}
zMtItb5ArK>E;e*@@iWM^h;XU!j5jnc&C5*APf3l>Oi9fvF*M37j<3i}i7zfmEGl7)
XC#c>Osy;bCuOu_CG!+1ofg>0I=67%I

literal 0
HcmV?d00001

diff --git a/src/shared/display.rs b/src/shared/display.rs
index 3515b9d..3d80150 100644
--- a/src/shared/display.rs
+++ b/src/shared/display.rs
@@ -93,10 +93,10 @@ pub(crate) fn fmt_document(document: RefDocumentDecl<'_>, f: &mut Formatter<'_>)
 pub(crate) fn fmt_document_type(doc_type: RefDocumentType<'_>, f: &mut Formatter<'_>) -> FmtResult {
     write!(f, "{} {}", XML_DOCTYPE_START, doc_type.node_name())?;
     if let Some(id) = &doc_type.public_id() {
-        write!(f, " {} \"{}\"", XML_DOCTYPE_PUBLIC, id)?;
+        write!(f, " {} {}", XML_DOCTYPE_PUBLIC, text::quoted(id))?;
     }
     if let Some(id) = &doc_type.system_id() {
-        write!(f, " {} \"{}\"", XML_DOCTYPE_SYSTEM, id)?;
+        write!(f, " {} {}", XML_DOCTYPE_SYSTEM, text::quoted(id))?;
     }
     if (doc_type.entities().len() + doc_type.notations().len() > 0)
         || doc_type.internal_subset().is_some()
@@ -130,14 +130,18 @@ pub(crate) fn fmt_document_fragment(
 pub(crate) fn fmt_entity(entity: RefEntity<'_>, f: &mut Formatter<'_>) -> FmtResult {
     write!(f, "{} {}", XML_ENTITY_START, entity.node_name())?;
     if entity.public_id().is_none() && entity.system_id().is_none() {
-        write!(f, " \"{}\"", entity.node_value().unwrap_or_default())?;
+        write!(
+            f,
+            " {}",
+            text::quoted(&entity.node_value().unwrap_or_default())
+        )?;
     } else if let Some(public_id) = entity.public_id() {
-        write!(f, " {} \"{}\"", XML_DOCTYPE_PUBLIC, public_id)?;
+        write!(f, " {} {}", XML_DOCTYPE_PUBLIC, text::quoted(&public_id))?;
         if let Some(system_id) = entity.system_id() {
-            write!(f, " \"{}\"", system_id)?;
+            write!(f, " {}", text::quoted(&system_id))?;
         }
     } else if let Some(system_id) = entity.system_id() {
-        write!(f, " {} \"{}\"", XML_DOCTYPE_SYSTEM, system_id)?;
+        write!(f, " {} {}", XML_DOCTYPE_SYSTEM, text::quoted(&system_id))?;
     }
     if let Some(entity_name) = entity.notation_name() {
         write!(f, " {}", entity_name)?;
@@ -161,12 +165,12 @@ pub(crate) fn fmt_entity_reference(
 pub(crate) fn fmt_notation(notation: RefNotation<'_>, f: &mut Formatter<'_>) -> FmtResult {
     write!(f, "{} {}", XML_NOTATION_START, notation.node_name())?;
     if let Some(public_id) = notation.public_id() {
-        write!(f, " {} \"{}\"", XML_DOCTYPE_PUBLIC, public_id)?;
+        write!(f, " {} {}", XML_DOCTYPE_PUBLIC, text::quoted(&public_id))?;
         if let Some(system_id) = notation.system_id() {
-            write!(f, " \"{}\"", system_id)?;
+            write!(f, " {}", text::quoted(&system_id))?;
         }
     } else if let Some(system_id) = notation.system_id() {
-        write!(f, " {} \"{}\"", XML_DOCTYPE_SYSTEM, system_id)?;
+        write!(f, " {} {}", XML_DOCTYPE_SYSTEM, text::quoted(&system_id))?;
     }
     write!(f, "{}", XML_NOTATION_END)
 }
diff --git a/src/shared/text.rs b/src/shared/text.rs
index 63581f8..5fdd4eb 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -231,6 +231,23 @@ pub(crate) fn white_space_to_entities(input: String, white_space: &[char]) -> St
     result
 }
 
+///
+/// Put `input` between quotes, of the kind that it does not contain. If it contains both, its double
+/// quotes are written as character references, which are recognized in the value of an entity.
+///
+pub(crate) fn quoted(input: &str) -> String {
+    if !input.contains(XML_ESC_QUOT_CHAR) {
+        format!("\"{}\"", input)
+    } else if !input.contains(XML_ESC_APOS_CHAR) {
+        format!("'{}'", input)
+    } else {
+        format!(
+            "\"{}\"",
+            input.replace(XML_ESC_QUOT_CHAR, &to_entity(XML_ESC_QUOT_CHAR))
+        )
+    }
+}
+
 #[allow(dead_code)]
 pub(crate) fn to_entity_hex(c: char) -> String {
     format!(
-- 
2.43.0


From a8eb4d8beffd52b0cbff642c8b0a9877fbfe7705 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:19 +0000
Subject: [PATCH 34/43] fix: searching a deeply nested tree does not overflow
 the stack

---
 src/level2/trait_impls.rs | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 8c57d9b..118efa4 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1265,14 +1265,15 @@ impl Display for RefNode {
 
 //
 // Call `visit` with each element below `node`, including any within entity references, in document
-// order.
+// order. The tree may be deeper than it would be safe to recurse.
 //
 fn descendant_elements(node: &RefNode, visit: &mut dyn FnMut(&RefNode)) {
-    for child_node in &node.borrow().i_child_nodes {
-        if is_element(child_node) {
-            visit(child_node);
+    let mut pending: Vec<RefNode> = node.child_nodes().into_iter().rev().collect();
+    while let Some(child_node) = pending.pop() {
+        if is_element(&child_node) {
+            visit(&child_node);
         }
-        descendant_elements(child_node, visit);
+        pending.extend(child_node.child_nodes().into_iter().rev());
     }
 }
 
-- 
2.43.0


From f7b13cb56d640853263a37cf88c38f8751de2d93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:44 +0000
Subject: [PATCH 35/43] fix: resolving a prefix or namespace deep in a tree
 does not overflow the stack

---
 src/level2/ext/namespaced.rs | 55 ++++++++++++------------------------
 1 file changed, 18 insertions(+), 37 deletions(-)

diff --git a/src/level2/ext/namespaced.rs b/src/level2/ext/namespaced.rs
index 200564b..15ef5b2 100644
--- a/src/level2/ext/namespaced.rs
+++ b/src/level2/ext/namespaced.rs
@@ -5,9 +5,7 @@ This module provides support types for the [`Namespaced`](trait.Namespaced.html)
 use crate::level2::ext::traits::Namespaced;
 use crate::level2::node_impl::{Extension, RefNode};
 use crate::level2::traits::{Node, NodeType};
-use crate::shared::error::{
-    Error, Result, MSG_INVALID_EXTENSION, MSG_INVALID_NODE_TYPE, MSG_WEAK_REF,
-};
+use crate::shared::error::{Error, Result, MSG_INVALID_EXTENSION, MSG_INVALID_NODE_TYPE};
 
 // ------------------------------------------------------------------------------------------------
 // Public Types
@@ -139,25 +137,18 @@ impl Namespaced for RefNode {
         if !add_namespaces(self) {
             return None;
         }
-        match self.get_namespace(prefix) {
-            None => {
-                let ref_self = self.borrow();
-                match &ref_self.i_parent_node {
-                    None => None,
-                    Some(parent) => {
-                        let parent = parent.clone();
-                        match parent.upgrade() {
-                            None => {
-                                warn!("{}", MSG_WEAK_REF);
-                                None
-                            }
-                            Some(parent_node) => parent_node.resolve_namespace(prefix),
-                        }
-                    }
-                }
+        //
+        // The tree may be deeper than it would be safe to recurse.
+        //
+        let mut current = Some(self.clone());
+        while let Some(node) = current {
+            let found = node.get_namespace(prefix);
+            if found.is_some() {
+                return found;
             }
-            found => found,
+            current = node.parent_node();
         }
+        None
     }
 
     fn contains_mapped_namespace(&self, namespace_uri: &str) -> bool {
@@ -192,25 +183,15 @@ impl Namespaced for RefNode {
         if !add_namespaces(self) {
             return NamespacePrefix::None;
         }
-        match self.get_prefix(namespace_uri) {
-            NamespacePrefix::None => {
-                let ref_self = self.borrow();
-                match &ref_self.i_parent_node {
-                    None => NamespacePrefix::None,
-                    Some(parent) => {
-                        let parent = parent.clone();
-                        match parent.upgrade() {
-                            None => {
-                                warn!("{}", MSG_WEAK_REF);
-                                NamespacePrefix::None
-                            }
-                            Some(parent_node) => parent_node.resolve_prefix(namespace_uri),
-                        }
-                    }
-                }
+        let mut current = Some(self.clone());
+        while let Some(node) = current {
+            let found = node.get_prefix(namespace_uri);
+            if !found.is_none() {
+                return found;
             }
-            found => found,
+            current = node.parent_node();
         }
+        NamespacePrefix::None
     }
 }
 
-- 
2.43.0


From 0cae39d68b39c892fe4c33c2840e0b339b0ceb0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:46 +0000
Subject: [PATCH 36/43] fix: normalizing a deeply nested tree does not overflow
 the stack

---
 src/level2/trait_impls.rs | 46 +++++++++++++++++++++------------------
 1 file changed, 25 insertions(+), 21 deletions(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 118efa4..47b1d4f 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1151,32 +1151,36 @@ impl Node for RefNode {
     }
 
     fn normalize(&mut self) {
-        for child_node in self.child_nodes() {
-            if is_text(&child_node) {
-                if CharacterData::length(&child_node) == 0 {
-                    if self.remove_child(child_node).is_err() {
-                        panic!("Could not remove unnecessary text node");
-                    }
-                } else if let Some(last_child_node) = child_node.previous_sibling() {
-                    let last_child_node = &mut last_child_node.clone();
-                    if is_text(last_child_node) {
-                        if last_child_node
-                            .append_data(&child_node.node_value().unwrap())
-                            .is_err()
-                        {
-                            panic!("Could not merge text nodes");
-                        }
-                        if self.remove_child(child_node).is_err() {
+        //
+        // The tree may be deeper than it would be safe to recurse.
+        //
+        let mut pending = vec![self.clone()];
+        while let Some(mut node) = pending.pop() {
+            for child_node in node.child_nodes() {
+                if is_text(&child_node) {
+                    if CharacterData::length(&child_node) == 0 {
+                        if node.remove_child(child_node).is_err() {
                             panic!("Could not remove unnecessary text node");
                         }
+                    } else if let Some(last_child_node) = child_node.previous_sibling() {
+                        let last_child_node = &mut last_child_node.clone();
+                        if is_text(last_child_node) {
+                            if last_child_node
+                                .append_data(&child_node.node_value().unwrap())
+                                .is_err()
+                            {
+                                panic!("Could not merge text nodes");
+                            }
+                            if node.remove_child(child_node).is_err() {
+                                panic!("Could not remove unnecessary text node");
+                            }
+                        }
                     }
+                } else {
+                    pending.push(child_node);
                 }
-            } else {
-                child_node.clone().normalize();
             }
-        }
-        for mut attribute_node in self.attributes().into_values() {
-            attribute_node.normalize();
+            pending.extend(node.attributes().into_values());
         }
     }
 
-- 
2.43.0


From 6a8479b5b94e9ec34959b0b49900d5cc9c4df818 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:41:48 +0000
Subject: [PATCH 37/43] fix: cloning a deeply nested tree does not overflow the
 stack

---
 src/level2/node_impl.rs   | 13 ++-------
 src/level2/trait_impls.rs | 59 +++++++++++++++++++++++++--------------
 2 files changed, 41 insertions(+), 31 deletions(-)

diff --git a/src/level2/node_impl.rs b/src/level2/node_impl.rs
index 231571b..8086147 100644
--- a/src/level2/node_impl.rs
+++ b/src/level2/node_impl.rs
@@ -1,6 +1,6 @@
 use crate::level2::ext::ProcessingOptions;
 use crate::level2::ext::XmlDecl;
-use crate::level2::traits::{Node, NodeType};
+use crate::level2::traits::NodeType;
 use crate::level2::{get_implementation, DOMImplementation};
 use crate::shared::name::Name;
 use crate::shared::rc_cell::{RcRefCell, WeakRefCell};
@@ -322,7 +322,7 @@ impl NodeImpl {
         }
     }
     #[allow(suspicious_double_ref_op)]
-    pub(crate) fn clone_node(&self, deep: bool) -> Self {
+    pub(crate) fn clone_node(&self) -> Self {
         let extension = match &self.i_extension {
             Extension::None => Extension::None,
             Extension::Attribute { i_owner_element } => Extension::Attribute {
@@ -370,14 +370,7 @@ impl NodeImpl {
             i_value: self.i_value.clone(),
             i_parent_node: None,
             i_owner_document: self.i_owner_document.clone(),
-            i_child_nodes: if deep {
-                self.i_child_nodes
-                    .iter()
-                    .map(|node| node.clone_node(deep).unwrap())
-                    .collect()
-            } else {
-                vec![]
-            },
+            i_child_nodes: vec![],
             i_extension: extension,
         }
     }
diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index 47b1d4f..c64b08c 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1123,29 +1123,23 @@ impl Node for RefNode {
     }
 
     fn clone_node(&self, deep: bool) -> Option<RefNode> {
-        let ref_self = self.borrow();
-        let new_node = ref_self.clone_node(deep);
-        let new_node = RefNode::new(new_node);
-        //
-        // The new node is the parent of its children, and has its own copy of each attribute.
-        //
-        for child_node in new_node.child_nodes() {
-            child_node.borrow_mut().i_parent_node = Some(new_node.clone().downgrade());
-        }
-        match &mut new_node.borrow_mut().i_extension {
-            Extension::Element { i_attributes, .. } => {
-                for attribute in i_attributes.values_mut() {
-                    *attribute = attribute.clone_node(true)?;
-                    if let Extension::Attribute {
-                        i_owner_element, ..
-                    } = &mut attribute.borrow_mut().i_extension
-                    {
-                        *i_owner_element = Some(new_node.clone().downgrade());
-                    }
+        let new_node = clone_without_children(self)?;
+        if deep {
+            //
+            // The tree may be deeper than it would be safe to recurse.
+            //
+            let mut pending = vec![(self.clone(), new_node.clone())];
+            while let Some((node, new_parent)) = pending.pop() {
+                for child_node in node.child_nodes() {
+                    let new_child = clone_without_children(&child_node)?;
+                    new_child.borrow_mut().i_parent_node = Some(new_parent.clone().downgrade());
+                    new_parent
+                        .borrow_mut()
+                        .i_child_nodes
+                        .push(new_child.clone());
+                    pending.push((child_node, new_child));
                 }
             }
-            Extension::Attribute { i_owner_element } => *i_owner_element = None,
-            _ => (),
         }
         Some(new_node)
     }
@@ -1309,6 +1303,29 @@ fn namespaced_name_match(
     }
 }
 
+//
+// A copy of `node`, with its own copy of each attribute, and no children.
+//
+fn clone_without_children(node: &RefNode) -> Option<RefNode> {
+    let new_node = RefNode::new(node.borrow().clone_node());
+    match &mut new_node.borrow_mut().i_extension {
+        Extension::Element { i_attributes, .. } => {
+            for attribute in i_attributes.values_mut() {
+                *attribute = attribute.clone_node(true)?;
+                if let Extension::Attribute {
+                    i_owner_element, ..
+                } = &mut attribute.borrow_mut().i_extension
+                {
+                    *i_owner_element = Some(new_node.clone().downgrade());
+                }
+            }
+        }
+        Extension::Attribute { i_owner_element } => *i_owner_element = None,
+        _ => (),
+    }
+    Some(new_node)
+}
+
 //
 // Create an attribute node, with a text child that has the attribute as its parent.
 //
-- 
2.43.0


From 9d7a52ce9459516358c9617b8bbd28c3a118e308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:42:26 +0000
Subject: [PATCH 38/43] fix: printing a deeply nested tree does not overflow
 the stack

---
 src/shared/display.rs | 73 +++++++++++++++++++++++++++++++++----------
 1 file changed, 56 insertions(+), 17 deletions(-)

diff --git a/src/shared/display.rs b/src/shared/display.rs
index 3d80150..ff80d3a 100644
--- a/src/shared/display.rs
+++ b/src/shared/display.rs
@@ -9,15 +9,18 @@ use std::fmt::{Formatter, Result as FmtResult};
 // Public Functions
 // ------------------------------------------------------------------------------------------------
 
-pub(crate) fn fmt_element(element: RefElement<'_>, f: &mut Formatter<'_>) -> FmtResult {
+//
+// The start of each of these is followed by the children, and then the end.
+//
+fn fmt_element_start(element: RefElement<'_>, f: &mut Formatter<'_>) -> FmtResult {
     write!(f, "{}{}", XML_ELEMENT_START_START, element.node_name())?;
     for attr in element.attributes().values() {
         write!(f, " {}", attr)?;
     }
-    write!(f, "{}", XML_ELEMENT_START_END)?;
-    for child in element.child_nodes() {
-        write!(f, "{}", child)?;
-    }
+    write!(f, "{}", XML_ELEMENT_START_END)
+}
+
+fn fmt_element_end(element: RefElement<'_>, f: &mut Formatter<'_>) -> FmtResult {
     write!(
         f,
         "{}{}{}",
@@ -77,16 +80,13 @@ pub(crate) fn fmt_comment(
     }
 }
 
-pub(crate) fn fmt_document(document: RefDocumentDecl<'_>, f: &mut Formatter<'_>) -> FmtResult {
+fn fmt_document_start(document: RefDocumentDecl<'_>, f: &mut Formatter<'_>) -> FmtResult {
     if let Some(xml_declaration) = &document.xml_declaration() {
         write!(f, "{}", xml_declaration)?;
     }
     if let Some(doc_type) = &document.doc_type() {
         write!(f, "{}", doc_type)?;
     }
-    for child in document.child_nodes() {
-        write!(f, "{}", child)?;
-    }
     Ok(())
 }
 
@@ -116,14 +116,14 @@ pub(crate) fn fmt_document_type(doc_type: RefDocumentType<'_>, f: &mut Formatter
     write!(f, "{}", XML_DOCTYPE_END)
 }
 
-pub(crate) fn fmt_document_fragment(
+fn fmt_document_fragment_start(
     fragment: RefDocumentFragment<'_>,
     f: &mut Formatter<'_>,
 ) -> FmtResult {
-    write!(f, "{}{} ", XML_CDATA_START, fragment.node_name())?;
-    for child in fragment.child_nodes() {
-        write!(f, "{}", child)?;
-    }
+    write!(f, "{}{} ", XML_CDATA_START, fragment.node_name())
+}
+
+fn fmt_document_fragment_end(f: &mut Formatter<'_>) -> FmtResult {
     write!(f, "{}", XML_CDATA_END)
 }
 
@@ -176,8 +176,37 @@ pub(crate) fn fmt_notation(notation: RefNotation<'_>, f: &mut Formatter<'_>) ->
 }
 
 pub(crate) fn fmt_node(node: &RefNode, f: &mut Formatter<'_>) -> FmtResult {
+    //
+    // What remains to be written, nodes and the ends of nodes, the next one last. The tree may be deeper
+    // than it would be safe to recurse.
+    //
+    enum Pending {
+        Node(RefNode),
+        End(RefNode),
+    }
+    let mut pending = vec![Pending::Node(node.clone())];
+    while let Some(next) = pending.pop() {
+        match next {
+            Pending::Node(node) => {
+                fmt_node_start(&node, f)?;
+                if matches!(
+                    node.node_type(),
+                    NodeType::Element | NodeType::Document | NodeType::DocumentFragment
+                ) {
+                    let children = node.child_nodes();
+                    pending.push(Pending::End(node));
+                    pending.extend(children.into_iter().rev().map(Pending::Node));
+                }
+            }
+            Pending::End(node) => fmt_node_end(&node, f)?,
+        }
+    }
+    Ok(())
+}
+
+fn fmt_node_start(node: &RefNode, f: &mut Formatter<'_>) -> FmtResult {
     match node.node_type() {
-        NodeType::Element => fmt_element(as_element(node).unwrap(), f),
+        NodeType::Element => fmt_element_start(as_element(node).unwrap(), f),
         NodeType::Attribute => fmt_attribute(as_attribute(node).unwrap(), f),
         NodeType::Text => fmt_text(as_character_data(node).unwrap(), f),
         NodeType::CData => fmt_cdata(as_character_data(node).unwrap(), f),
@@ -185,11 +214,21 @@ pub(crate) fn fmt_node(node: &RefNode, f: &mut Formatter<'_>) -> FmtResult {
             fmt_processing_instruction(as_processing_instruction(node).unwrap(), f)
         }
         NodeType::Comment => fmt_comment(as_character_data(node).unwrap(), f),
-        NodeType::Document => fmt_document(as_document_decl(node).unwrap(), f),
+        NodeType::Document => fmt_document_start(as_document_decl(node).unwrap(), f),
         NodeType::DocumentType => fmt_document_type(as_document_type(node).unwrap(), f),
-        NodeType::DocumentFragment => fmt_document_fragment(as_document_fragment(node).unwrap(), f),
+        NodeType::DocumentFragment => {
+            fmt_document_fragment_start(as_document_fragment(node).unwrap(), f)
+        }
         NodeType::Entity => fmt_entity(as_entity(node).unwrap(), f),
         NodeType::EntityReference => fmt_entity_reference(as_entity_reference(node).unwrap(), f),
         NodeType::Notation => fmt_notation(as_notation(node).unwrap(), f),
     }
 }
+
+fn fmt_node_end(node: &RefNode, f: &mut Formatter<'_>) -> FmtResult {
+    match node.node_type() {
+        NodeType::Element => fmt_element_end(as_element(node).unwrap(), f),
+        NodeType::DocumentFragment => fmt_document_fragment_end(f),
+        _ => Ok(()),
+    }
+}
-- 
2.43.0


From df6d0cc94c2b5d5fab3a0772e7218d03f6b0f34f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:02:28 +0000
Subject: [PATCH 39/43] fix: has_attribute_ns takes a local name, as
 get_attribute_ns does

---
 src/level2/trait_impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index c64b08c..c6cf2b9 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -754,7 +754,7 @@ impl Element for RefNode {
                     if let Extension::Element { i_attributes, .. } = &ref_self.i_extension {
                         i_attributes.keys().any(|n| {
                             n.namespace_uri() == name.namespace_uri()
-                                && n.local_name() == name.local_name()
+                                && n.local_name() == local_name
                         })
                     } else {
                         warn!("{}", MSG_INVALID_EXTENSION);
-- 
2.43.0


From 4666cbd84d3a1eaa2803a713e9822745db5ad1fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:05:06 +0000
Subject: [PATCH 40/43] fix: an element in a namespace called * is not found in
 every namespace

---
 src/level2/trait_impls.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index c6cf2b9..cb4fec3 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1295,7 +1295,7 @@ fn namespaced_name_match(
                     || against_local == WILD_CARD)
         }
         Some(test_ns) => {
-            ((test_ns == against_ns) || test_ns == WILD_CARD || against_ns == WILD_CARD)
+            ((test_ns == against_ns) || against_ns == WILD_CARD)
                 && ((test_local == against_local)
                     || test_local == WILD_CARD
                     || against_local == WILD_CARD)
-- 
2.43.0


From d7444b574272af0ebf0e30a5d41b1fa884d8d1da Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:57:33 +0000
Subject: [PATCH 41/43] fix: copying and releasing a tree that is deep through
 attributes does not overflow the stack

---
 src/level2/node_impl.rs   | 14 +++++++++++--
 src/level2/trait_impls.rs | 43 +++++++++++++++++++++++----------------
 2 files changed, 37 insertions(+), 20 deletions(-)

diff --git a/src/level2/node_impl.rs b/src/level2/node_impl.rs
index 8086147..5d9717e 100644
--- a/src/level2/node_impl.rs
+++ b/src/level2/node_impl.rs
@@ -106,10 +106,10 @@ impl Drop for NodeImpl {
     /// Release the tree below this node without recursion, it may be deeper than would be safe.
     ///
     fn drop(&mut self) {
-        let mut released = std::mem::take(&mut self.i_child_nodes);
+        let mut released = self.take_below();
         while let Some(node) = released.pop() {
             if Rc::strong_count(node.as_inner()) == 1 {
-                released.append(&mut node.borrow_mut().i_child_nodes);
+                released.append(&mut node.borrow_mut().take_below());
             }
         }
     }
@@ -118,6 +118,16 @@ impl Drop for NodeImpl {
 // ------------------------------------------------------------------------------------------------
 
 impl NodeImpl {
+    ///
+    /// Take the children and attributes from this node.
+    ///
+    fn take_below(&mut self) -> Vec<RefNode> {
+        let mut below = std::mem::take(&mut self.i_child_nodes);
+        if let Extension::Element { i_attributes, .. } = &mut self.i_extension {
+            below.extend(std::mem::take(i_attributes).into_values());
+        }
+        below
+    }
     pub(crate) fn new_element(owner_document: WeakRefNode, name: Name) -> Self {
         Self {
             i_node_type: NodeType::Element,
diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index cb4fec3..c879f58 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1123,22 +1123,23 @@ impl Node for RefNode {
     }
 
     fn clone_node(&self, deep: bool) -> Option<RefNode> {
-        let new_node = clone_without_children(self)?;
+        //
+        // The tree may be deeper than it would be safe to recurse.
+        //
+        let mut pending = vec![];
+        let new_node = clone_without_children(self, &mut pending)?;
         if deep {
-            //
-            // The tree may be deeper than it would be safe to recurse.
-            //
-            let mut pending = vec![(self.clone(), new_node.clone())];
-            while let Some((node, new_parent)) = pending.pop() {
-                for child_node in node.child_nodes() {
-                    let new_child = clone_without_children(&child_node)?;
-                    new_child.borrow_mut().i_parent_node = Some(new_parent.clone().downgrade());
-                    new_parent
-                        .borrow_mut()
-                        .i_child_nodes
-                        .push(new_child.clone());
-                    pending.push((child_node, new_child));
-                }
+            pending.push((self.clone(), new_node.clone()));
+        }
+        while let Some((node, new_parent)) = pending.pop() {
+            for child_node in node.child_nodes() {
+                let new_child = clone_without_children(&child_node, &mut pending)?;
+                new_child.borrow_mut().i_parent_node = Some(new_parent.clone().downgrade());
+                new_parent
+                    .borrow_mut()
+                    .i_child_nodes
+                    .push(new_child.clone());
+                pending.push((child_node, new_child));
             }
         }
         Some(new_node)
@@ -1304,14 +1305,20 @@ fn namespaced_name_match(
 }
 
 //
-// A copy of `node`, with its own copy of each attribute, and no children.
+// A copy of `node`, with its own copy of each attribute, and no children. The children of the attributes are
+// still to be copied, each attribute is added to `pending` with its copy.
 //
-fn clone_without_children(node: &RefNode) -> Option<RefNode> {
+fn clone_without_children(
+    node: &RefNode,
+    pending: &mut Vec<(RefNode, RefNode)>,
+) -> Option<RefNode> {
     let new_node = RefNode::new(node.borrow().clone_node());
     match &mut new_node.borrow_mut().i_extension {
         Extension::Element { i_attributes, .. } => {
             for attribute in i_attributes.values_mut() {
-                *attribute = attribute.clone_node(true)?;
+                let original = attribute.clone();
+                *attribute = clone_without_children(&original, pending)?;
+                pending.push((original, attribute.clone()));
                 if let Extension::Attribute {
                     i_owner_element, ..
                 } = &mut attribute.borrow_mut().i_extension
-- 
2.43.0


From dbe550199ef1d6df687bcbe41ab7c5f7efbc03d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:21:06 +0000
Subject: [PATCH 42/43] fix: a copied document owns the nodes in it, and finds
 the elements in it by their IDs

---
 src/level2/trait_impls.rs | 39 +++++++++++++++++++++++++++++++++++++++
 1 file changed, 39 insertions(+)

diff --git a/src/level2/trait_impls.rs b/src/level2/trait_impls.rs
index c879f58..cd9c61e 100644
--- a/src/level2/trait_impls.rs
+++ b/src/level2/trait_impls.rs
@@ -1142,6 +1142,9 @@ impl Node for RefNode {
                 pending.push((child_node, new_child));
             }
         }
+        if is_document(&new_node) {
+            own_descendants(&new_node);
+        }
         Some(new_node)
     }
 
@@ -1328,11 +1331,47 @@ fn clone_without_children(
             }
         }
         Extension::Attribute { i_owner_element } => *i_owner_element = None,
+        Extension::Document {
+            i_document_type,
+            i_id_map,
+            ..
+        } => {
+            i_id_map.clear();
+            if let Some(document_type) = i_document_type {
+                let new_document_type = clone_without_children(document_type, pending)?;
+                new_document_type.borrow_mut().i_owner_document =
+                    Some(new_node.clone().downgrade());
+                *document_type = new_document_type;
+            }
+        }
         _ => (),
     }
     Some(new_node)
 }
 
+//
+// Make `document`, which is a copy, the owner document of all nodes in it, and let it find elements by the
+// IDs they have.
+//
+fn own_descendants(document: &RefNode) {
+    let mut pending = document.child_nodes();
+    while let Some(node) = pending.pop() {
+        node.borrow_mut().i_owner_document = Some(document.clone().downgrade());
+        if is_attribute(&node) {
+            if let (Some(id_value), Some(element)) = (id_value(&node), node.owner_element()) {
+                if let Extension::Document { i_id_map, .. } =
+                    &mut document.borrow_mut().i_extension
+                {
+                    let _safe_to_ignore = i_id_map.insert(id_value, element.downgrade());
+                }
+            }
+        } else if is_element(&node) {
+            pending.extend(node.attributes().into_values());
+        }
+        pending.extend(node.child_nodes());
+    }
+}
+
 //
 // Create an attribute node, with a text child that has the attribute as its parent.
 //
-- 
2.43.0


From f4f7adcacd4bf9db21ad6ce686e5a900e0dbb36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:49:44 +0000
Subject: [PATCH 43/43] fix: a character reference whose number starts with a
 digit outside ASCII does not panic

---
 src/shared/text.rs | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/shared/text.rs b/src/shared/text.rs
index 5fdd4eb..cb61c97 100644
--- a/src/shared/text.rs
+++ b/src/shared/text.rs
@@ -260,7 +260,7 @@ fn char_from_entity(entity: impl AsRef<str>) -> String {
     let entity = entity.as_ref();
     assert!(entity.starts_with("&#"));
     assert!(entity.ends_with(';'));
-    let code_point = if &entity[2..3] == "x" {
+    let code_point = if entity[2..].starts_with('x') {
         let code_point = &entity[3..entity.len() - 1];
         u32::from_str_radix(code_point, 16)
     } else {
-- 
2.43.0

